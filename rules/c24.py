"""Derived label enums and label groups, over a corpus of declarations that covers every attribute,
every case style, explicit, implicit and unordered discriminants and 1 to 40 variants. For each
declared variant the generated code is followed with only that variant assumed: exactly one path is
feasible, its index is a constant below the cardinality, and decoding that constant gives the variant
back; the value it reports is compared with text written by hand. Groups report each field, once, in
declaration order, for opaque values."""
TECHNIQUE = 'path-sensitive constant and value-flow dataflow over the MIR of derive expansions (finite, exhaustive over variants)'
NOTE = 'quantifies over declarations by a corpus of 40 enums and 75 structs; per declaration every variant and every value is covered'
import json
from engine.lib import *

A0, A1 = S('arg0'), S('arg1')


def feasible(p, m):
    """the conditions of a path hold when the terms in m have the given constant values"""
    for f, v in p.facts.items():
        g = subst(f, m)
        if g.op == 'c' and g.a[0] != v:
            return False
    for f, vs in p.st.neg.items():
        g = subst(f, m)
        if g.op == 'c' and g.a[0] in vs:
            return False
    for f, b in p.st.iv.items():
        g = subst(f, m)
        if g.op == 'c' and not b[0] <= g.a[0] <= b[1]:
            return False
    return True


def chosen(r, m):
    return [p for p in r.ret + r.pan if feasible(p, m)]


def one(cx, rule, inst, r, m, what):
    ps = chosen(r, m)
    if not cx.ob(rule, inst, len(ps) == 1 and ps[0].kind == 'ret', '%s: %s' % (what, 'may panic' if any(p.kind != 'ret' for p in ps) else '%d possible outcomes' % len(ps)), r.fnsite()):
        return None
    return ps[0]


def events(p):
    return [e for e in p.every(('px',)) if e.name.startswith('px_label')]


def enum(cx, name, spec):
    m = 'enums::' + name
    card, enc, dec, val = [cx.run(m + '::root_' + x, split=True) for x in ('card', 'encode', 'decode', 'value')]
    if not (card and enc and dec and val):
        return 0
    want, discr = spec['variants'], spec['discriminants']
    n = len(want)
    cx.ob('cardinality', m, len(card.ret) == 1 and not card.pan and card.ret[0].val is C(n), 'the cardinality is not the number of variants, %d' % n)
    D = ops.op('discr', mk('val', A0))
    seen = {}
    for k in range(n):
        inst = '%s, variant %d' % (m, k)
        p = one(cx, 'index', inst, enc, {D: C(discr[k])}, 'encoding')
        if p is None:
            continue
        i = subst(p.val, {D: C(discr[k])})
        if not cx.ob('index', inst, i.op == 'c' and i.a[0] < n, 'the index is %s, not below %d' % (show(i)[:80], n)):
            continue
        cx.ob('own-index', inst, i.a[0] not in seen, 'shares index %d with variant %s' % (i.a[0], seen.get(i.a[0])))
        seen[i.a[0]] = k
        q = one(cx, 'decode-inverts', inst, dec, {A0: i}, 'decoding')
        if q is not None:
            cx.ob('decode-inverts', inst, subst(q.val, {A0: i}) is agg(k, ()), 'index %d decodes to %s' % (i.a[0], show(q.val)[:80]))
        q = one(cx, 'reported', inst, val, {D: C(discr[k])}, 'visiting')
        if q is not None:
            value(cx, inst, events(q), want[k])
        if spec['singleton']:
            r = cx.run(m + '::root_group', split=True)
            q = one(cx, 'reported', inst, r, {D: C(discr[k])}, 'visiting') if r else None
            if q is not None:
                es = events(q)
                if cx.ob('singleton-name', inst, bool(es) and es[0].name == 'px_label_name' and es[0].args[1] is bytes_term(spec['singleton'].encode()), 'is not reported under %r' % spec['singleton']):
                    value(cx, inst, es[1:], want[k])
    return 1


def value(cx, inst, es, want):
    exp = ('px_label_int', C(want & M(64))) if isinstance(want, int) else ('px_label_str', bytes_term(want.encode()))
    ok = len(es) == 1 and es[0].name == exp[0] and es[0].args[1] is exp[1]
    cx.ob('reported', inst, ok, 'is reported as %s, not %r' % ([show(e.args[1])[:80] for e in es], want))


def group(cx, root, labels):
    r = cx.run(root)
    if r is None:
        return 0
    ks = root.split('::s_')[1].split('::')[0]
    ks = '' if ks == 'none' else ks
    cx.ob('each-field-once', root, len(r.ret) == 1 and not r.pan, 'reporting does not complete on every path')
    for p in r.ret:
        es = events(p)
        got = [e.args[1] for e in es]
        want = []
        for i in range(len(ks)):
            want.append(bytes_term(labels[ks.lower() or 'none'][i].encode()))
            want.append(mk('val', A0) if len(ks) == 1 else mk('fld', mk('val', A0), i, len(ks)))
        cx.ob('each-field-once', root, got == want and [e.name for e in es] == ['px_label_name', 'px_label_int'] * len(ks) and all(e.args[0] is A1 for e in es),
              'reports %s' % [show(x)[:60] for x in got])
    return 1


V0 = 'val($arg0)'
GROUPS = {
    # the parts, in order: place of each label pair within the value, as (name field, value field) paths
    'l_none': [],
    'l_pair': [V0 + '.0.1', V0 + '.0.0', V0 + '.1.1', V0 + '.1.0'],
    'l_left': [V0 + x for x in ('.0.0.1', '.0.0.0', '.0.1.1', '.0.1.0', '.0.1.3', '.0.1.2', '.1.1', '.1.0')],
    'l_right': [V0 + x for x in ('.0.1', '.0.0', '.1.1', '.1.0', '.1.3', '.1.2')],
    'l_ref': ['val(%s)%s' % (V0, x) for x in ('.1', '.0', '.3', '.2')],
    'l_refs': ['val(%s.0).1' % V0, 'val(%s.0).0' % V0] + ['val(val(%s.1))%s' % (V0, x) for x in ('.0.1', '.0.0', '.1.1', '.1.0')],
    'l_with': [V0 + '.1', V0 + '.0', '$arg1.1', '$arg1.0', '$arg1.3', '$arg1.2'],
    'l_byref': [V0 + x for x in ('.1', '.0', '.3', '.2')],
}


def combined(cx, name, want):
    """composed groups report the labels of both parts, in order; references to groups report what the group does"""
    root = 'labels::%s::root_visit' % name
    r = cx.run(root)
    if r is None:
        return 0
    enc = S('arg2') if name == 'l_with' else A1
    cx.ob('composed-group', root, len(r.ret) == 1 and not r.pan, 'reporting does not complete on every path', r.fnsite())
    for p in r.ret:
        es = events(p)
        got = [(e.name, show(e.args[1])) for e in es]
        exp = [('px_label_name', 'px(px_ln,%s)' % w) if i % 2 == 0 else ('px_label_str', 'px(px_sval,%s)' % w) for i, w in enumerate(want)]
        cx.ob('composed-group', root, got == exp and all(e.args[0] is enc for e in es), 'reports %s' % [g[1][:60] for g in got], r.fnsite())
    return 1


def run(cx):
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'probe')
    spec = json.load(open(here + '/enums.json'))
    labels = json.load(open(here + '/shapes.json'))
    n = sum(enum(cx, k, v) for k, v in sorted(spec.items()))
    cx.need('enums', 'declarations', n, 37)
    n = sum(group(cx, root, labels) for root in cx.roots(r'shapes::s_\w+::root_visit'))
    cx.need('groups', 'declarations', n, 75)
    n = sum(combined(cx, k, w) for k, w in sorted(GROUPS.items()))
    cx.need('composed', 'groups', n, 8)
