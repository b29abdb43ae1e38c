"""The Prometheus text format as an automaton over the stream of a path, with a fixpoint over loops,
and the product of that automaton with the encoder's own memory between calls."""
from .textout import *

NAME = frozenset(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:')
NUMCH = frozenset(b'0123456789+-.eEinfINFaN')
TYPES = (b'counter', b'gauge', b'histogram', b'summary', b'untyped')
LINE_STARTS = {'start', 'sample', 'blank'}
DESC = {'start': 'at the start of a family', 'sample': 'after a sample line', 'blank': 'after a blank line'}


def fail(msg, site):
    raise Bad(msg, site)


def step(q, x, site):
    """q: state (string or tuple); x: byte (int) or Item"""
    byte = isinstance(x, int)
    ch = repr(bytes([x])) if byte else '<%s>' % (show(x.v)[:60] if isinstance(x.v, T) else x.k)
    raw = not byte and x.k == 'str' and 'raw' in x.esc
    if q in LINE_STARTS:
        if x == 0x0a:
            return 'blank' if q == 'sample' else fail('a blank line %s' % DESC[q], site)
        if x == 0x23:
            return ('c', b'#') if q != 'sample' else fail('a comment line follows a sample without a blank line between the families', site)
        if q == 'blank':
            fail('a blank line is followed by something other than a comment', site)
        if byte and x in NAME or raw:
            return 'name'
        fail('a line starts with %s' % ch, site)
    if isinstance(q, tuple):
        if q[0] == 'c':
            if not byte:
                fail('a comment is neither HELP nor TYPE', site)
            s = q[1] + bytes([x])
            if s == b'# HELP ':
                return ('hn', 0)
            if s == b'# TYPE ':
                return ('tn', 0)
            if b'# HELP '.startswith(s) or b'# TYPE '.startswith(s):
                return ('c', s)
            fail('a comment is neither HELP nor TYPE: %r' % s, site)
        if q[0] in ('hn', 'tn'):
            if byte and x in NAME or raw:
                return (q[0], 1)
            if x == 0x20 and q[1]:
                return 'help' if q[0] == 'hn' else ('t', b'')
            fail('%s in the name of a comment line' % ch, site)
        if q[0] == 't':
            if x == 0x0a and q[1] in TYPES:
                return 'start'
            if byte and any(t.startswith(q[1] + bytes([x])) for t in TYPES):
                return ('t', q[1] + bytes([x]))
            fail('not a metric type: %r then %s' % (q[1], ch), site)
    if q == 'help':
        if not byte:
            return q if x.k == 'num' or x.k == 'str' and 'help' in x.esc else fail('help text %s is not escaped' % ch, site)
        return 'start' if x == 0x0a else 'helpe' if x == 0x5c else q
    if q == 'helpe':
        return 'help' if byte and x in b'\\n' else fail('a bad escape in help text: %s' % ch, site)
    if q == 'name':
        if byte and x in NAME or raw:
            return q
        return 'open' if x == 0x7b else 'sp' if x == 0x20 else fail('%s in the name of a sample' % ch, site)
    if q in ('open', 'comma', 'lname'):
        if byte and x in NAME or raw:
            return 'lname'
        if q == 'lname' and x == 0x3d:
            return 'eq'
        fail('%s where a label name is expected%s' % (ch, ' (an empty label list)' if q == 'open' and x == 0x7d else ''), site)
    if q == 'eq':
        return 'val' if x == 0x22 else fail('%s instead of an opening quote' % ch, site)
    if q == 'val':
        if not byte:
            return q if x.k == 'num' or x.k == 'str' and 'label' in x.esc else fail('label value %s is not escaped' % ch, site)
        return 'vend' if x == 0x22 else 'vesc' if x == 0x5c else fail('a line break in a label value', site) if x == 0x0a else q
    if q == 'vesc':
        return 'val' if byte and x in b'\\"n' else fail('a bad escape in a label value: %s' % ch, site)
    if q == 'vend':
        return 'comma' if x == 0x2c else 'close' if x == 0x7d else fail('%s after a label value' % ch, site)
    if q == 'close':
        return 'sp' if x == 0x20 else fail('%s after the labels' % ch, site)
    if q == 'sp':
        return 'num' if (not byte and x.k == 'num' or byte and x in NUMCH) else fail('%s where the value is expected' % ch, site)
    if q == 'num':
        return 'sample' if x == 0x0a else q if byte and x in NUMCH else fail('%s after the value' % ch, site)
    fail('no such state %s' % (q,), site)


# ---------------------------------------------------------------- loops
OK = agg(0, (UNIT,))


def feasible(facts, env):
    """could these facts hold under the values of `env`?"""
    if not env:
        return True
    for k, v in facts.items():
        r = subst(k, env)
        if r is not k and r.op == 'c' and r.a[0] != v:
            return False
    return True


def closed(t):
    """no loop variables in it"""
    return not contains(t, lambda x: x.op in ('lv', 'k', 'ev', 'loop'))


def failed(facts, tr):
    from rules.errors import fallible
    return any(fallible(e) and facts.get(ops.op('discr', e.res)) == 1 for e in tr)


def run_items(items, confs, facts):
    """confs: set of (state, env items); -> the same after the items"""
    for it in items:
        if it.k == 'flush':
            for q, env in confs:
                if q not in LINE_STARTS or q == 'blank':
                    fail('the output is flushed %s' % DESC.get(q, 'within a line'), it.site)
            confs = {('start', env) for q, env in confs}
        elif it.k == 'b':
            for x in it.v:
                confs = {(step(q, x, it.site), env) for q, env in confs}
        elif it.k != 'loop':
            confs = {(step(q, it, it.site), env) for q, env in confs}
        else:
            # what the path knows after the loop holds for the loop's variables at its end
            confs = {(q, env) for q, env in loop_items(it, confs) if feasible(facts, dict(env))}
    return confs


def loop_items(it, confs):
    L = it.L
    start = set()
    for q, env in confs:
        e = dict(env)
        for l in L.leaves:
            v = subst(l[2], e)
            if closed(v) and l[0] != 'ind':
                e[l[3]] = v
            else:
                e.pop(l[3], None)
        start.add((q, frozenset(e.items())))
    seen, todo = set(start), list(start)
    while todo:
        q, env = todo.pop()
        e = dict(env)
        for i, (fx, items, s) in enumerate(it.bodies):
            if items is None or not feasible(fx, e):
                continue
            ev = {r: OK for r in results(s)}
            for q2, env2 in run_items(items, {(q, env)}, fx):
                e2 = dict(env2)
                e3 = dict(e2)
                for l in L.leaves:
                    v = subst(subst(l[4][it.index[i]], ev), e2)
                    if l[0] != 'ind' and closed(v):
                        e3[l[3]] = v
                    else:
                        e3.pop(l[3], None)
                c = (q2, frozenset(e3.items()))
                if c not in seen:
                    if len(seen) > 4000:
                        fail('too many states in a loop', it.site)
                    seen.add(c)
                    todo.append(c)
    return seen


def results(s):
    """results of fallible calls in a state's trace"""
    from rules.errors import fallible
    return {e.res for e in trace_list(s.trace) if fallible(e)}


# ---------------------------------------------------------------- the encoder's own memory
def leaves(v, path=()):
    if v.op == 'agg' and v.a[0] == 0 and len(v.a) > 1:
        out = []
        for i, x in enumerate(v.a[1:]):
            out += leaves(x, path + (('f', i, len(v.a) - 1),))
        return out
    return [(path, v)]


def at(v, path):
    for e in path:
        v = proj(v, e)
    return v


class Encoder:
    """fields of the encoder other than the writer, and their values in a new encoder"""
    def __init__(self, new, writer):
        self.fields = [(p, v) for p, v in leaves(new) if not writer(v)]
        self.writer = [p for p, v in leaves(new) if writer(v)]

    def initial(self):
        return tuple(v for p, v in self.fields)

    def assume(self, state, arg):
        return {at(mk('val', arg), p): v for (p, _), v in zip(self.fields, state)}

    def final(self, p, arg, env):
        v = p.st.mem.get(mk('deref', arg))
        if v is None:
            v = mk('val', arg)
        return tuple(subst(at(v, f), env) for f, _ in self.fields)


def path_streams(r, paths=None):
    """[(path, Stream)] of the successful paths; raises Bad"""
    return [(p, Stream(r.I, p.st, p.trace)) for p in (successes(r) if paths is None else paths)]
