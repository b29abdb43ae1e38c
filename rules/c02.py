"""Every public gauge route (integer and float; plain, labelled, shared guard, exclusive guard, raw
AtomicF64) is analysed on all paths; on each returning path exactly one cell is updated, by one
atomic read-modify-write, one successful compare-and-swap whose new value is the requested function
of the value it replaced, one store (set), or one exclusive in-place update."""
from .cells import *

ONE = {'int': C(1), 'f': fconst(1.0)}


def plus(kind, a, b):
    return add(64, a, b) if kind == 'int' else ops.fbin('fadd', 64, a, b)


def minus(kind, a, b):
    return sub(64, a, b) if kind == 'int' else ops.fbin('fsub', 64, a, b)


def run(cx):
    for root in cx.roots(r'metrics::root_(gauge|gvec|fgauge|fvec|atomic)_.*'):
        if root.endswith(('_new', '_default', '_zero', '_get', '_get_ex')):
            continue
        kind = 'int' if re.search(r'root_(gauge|gvec)_', root) else 'f'
        r = cx.run(root)
        if r is None:
            continue
        n = cx.P.fns[cx.P.roots[root]]['nargs']
        x = S('arg%d' % (n - 1))
        op = re.search(r'_(inc_by|inc|dec_by|dec|set|set_mut)$', root).group(1)
        amt = x if op.endswith('_by') else ONE[kind]
        zero = [C0] if kind == 'int' else [C0, fconst(0.0)]
        if op.startswith('inc'):
            f = lambda old: None if old is None else plus(kind, old, amt)
        elif op.startswith('dec'):
            f = lambda old: None if old is None else minus(kind, old, amt)
        else:
            f = lambda old: x
        cx.ob('returns', root, r.ret, 'no path returns')
        for p in r.ret:
            expect_add(cx, p, root, f, zero)
    for root in ('metrics::root_atomic_get', 'metrics::root_atomic_get_ex'):
        r = cx.run(root)
        if r:
            for p in r.ret:
                if root.endswith('_ex'):
                    ok = p.val is mk('val', S('arg0'))
                else:
                    ev = [e for e in p.trace if e.kind == 'atomic']
                    ok = len(ev) == 1 and ev[0].name == 'load' and p.val is ev[0].res
                cx.ob('read-is-one-load', root, ok, show(p.val))
    cx.need('gauge-routes', 'roots', len(cx.runs), 56)
