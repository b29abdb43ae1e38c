"""Error discipline: the result of every fallible call is inspected, nothing is written after a
failure, and the failure itself is what the caller gets."""
from engine.lib import *

FALLIBLE = re.compile(r'px_(w_\w+|end_\w+|group\d|\w*_fallible)$')


def fallible(e):
    return e.kind in ('px', 'call') and e.res is not None and e.res.op == 'ev' and (e.kind == 'call' or FALLIBLE.match(e.name))


def is_error_value(val, res):
    if val is None:
        return False
    return val is res or val.op == 'agg' and val.a[0] == 1 and len(val.a) == 2 and same_payload(val.a[1], res)


def same_payload(v, res):
    return v is proj(res, ('v', 1, 0, 1))


def tail_events(p):
    return p.trace


def is_err(I, st, t):
    """does the state show that the Result t is an error (1), a success (0), or neither (None)?"""
    if t.op == 'agg':
        return 1 if t.a[0] == 1 else 0
    d = ops.op('discr', t)
    for v in (0, 1):
        k = I.known(st, ops.eq(d, C(v)))
        if k is not None:
            return v if k else 1 - v
    return I.known(st, d)


def sticky(I, lid):
    """the loop variable that remembers the first error of the loop: it starts as a success; while it
    is an error nothing fallible is called and it stays what it is; a failure is stored in it and ends
    the iteration's calls"""
    L = I.loops[lid]
    for l in L.leaves:
        if l[0] != 'lv' or not (l[2].op == 'agg' and l[2].a[0] == 0 and len(l[2].a) == 2):
            continue
        if all(sticky_cont(I, l, i, fx, tr, s) for i, (fx, tr, s) in enumerate(L.conts)):
            return l[3]
    return None


def sticky_cont(I, l, i, fx, tr, s):
    sym, up = l[3], l[4][i]
    calls = [e for e in every(I, tr) if fallible(e)]
    d = is_err(I, s, sym)
    if d == 1:
        return not calls and up is sym
    if d is None:
        return not calls and up is sym
    own = [e for e in tr if fallible(e)]
    bad = [e for e in own if fx.get(ops.op('discr', e.res)) == 1]
    if bad:
        return bad[0] is own[-1] and is_error_value(up, bad[0].res)
    for e in own:
        if fx.get(ops.op('discr', e.res)) is None and up is not e.res:
            return False
    return up.op == 'agg' and up.a[0] == 0 or any(up is e.res for e in own) or up is sym


class Remembered:
    """stands for the loop's remembered error"""
    def __init__(self, sym, site):
        self.name, self.res, self.site = 'a call in a loop', sym, site


def check_path(cx, root, p, rule='error-discipline', value=True):
    """value: the root returns the Result. Returns the number of fallible calls judged"""
    n = 0
    I = p.run.I
    tr = p.trace
    failed = None
    for i, e in enumerate(tr):
        if e.kind == 'loop':
            if failed:
                bad = [x for x in every(I, tr[i:i + 1]) if x.kind == 'px']
                cx.ob(rule, root, not bad, 'goes on after an error of %s' % failed.name, failed.site)
            sy = sticky(I, e.x) if I.loops[e.x].conts else None
            if sy is not None:
                n += len([x for x in every(I, [e]) if fallible(x)])
                d = is_err(I, p.st, sy)
                rest = [x for x in every(I, tr[i + 1:]) if x.kind in ('px', 'call')]
                if d == 1:
                    failed = Remembered(sy, e.site)
                elif d is None:
                    cx.ob(rule, root, not rest and (not value or p.val is sy), 'the error remembered by a loop is not inspected', e.site)
                    failed = failed or (Remembered(sy, e.site) if p.val is sy else None)
            for fx, t2, s in I.loops[e.x].conts:
                n += check_cont(cx, root, p, {**p.facts, **fx}, t2, rule, sy is not None)
            continue
        if e.kind not in ('px', 'call'):
            continue
        if failed is not None:
            cx.ob(rule, root, False, '%s is called after %s failed' % (e.name, failed.name), e.site)
            return n
        if not fallible(e):
            continue
        n += 1
        d = p.facts.get(ops.op('discr', e.res))
        if d is None:
            last = not any(x.kind in ('px', 'call') for x in every(I, tr[i + 1:]))
            ok = last and (not value or p.val is e.res)
            cx.ob(rule, root, ok, 'the result of %s is not inspected' % e.name, e.site)
        elif d == 1:
            failed = e
    if failed is not None and value:
        cx.ob(rule, root, is_error_value(p.val, failed.res), 'the error of %s is not what is returned: %s' % (failed.name, show(p.val)[:160]), failed.site)
    elif value and failed is None and p.val is not None:
        # success may be reported only if nothing failed; a constant error is not from a failed call
        last = [e for e in tr if fallible(e)]
        ok = p.val.op == 'agg' and p.val.a[0] == 0 or p.val is UNIT or any(p.val is e.res for e in last)
        cx.ob(rule, root, ok, 'an error is returned though no call failed: %s' % show(p.val)[:160])
    return n


def check_cont(cx, root, p, facts, trace, rule, remembered=False):
    n = 0
    I = p.run.I
    for i, e in enumerate(trace):
        if e.kind == 'loop':
            for fx, t2, s in I.loops[e.x].conts:
                n += check_cont(cx, root, p, {**facts, **fx}, t2, rule)
        elif fallible(e):
            n += 1
            d = facts.get(ops.op('discr', e.res))
            # a loop that remembers its first error was shown to do nothing more after it
            ok = d == 0 or remembered and (d == 1 or not any(fallible(x) for x in every(I, trace[i + 1:])))
            cx.ob(rule, root, ok, 'a loop goes on although the result of %s %s' % (e.name, 'is not inspected' if d is None else 'is an error'), e.site)
    return n


def every(I, tr):
    out = []
    for e in tr:
        if e.kind == 'loop':
            for f, t, s in I.loops[e.x].conts:
                out += every(I, t)
        else:
            out.append(e)
    return out
