"""Every public counter increment route is analysed on all paths; on each path that returns, the
only update of any counter cell must be one atomic add (or an exact in-place add under exclusive
access) of exactly the requested amount, applied to one cell."""
from .cells import *

ONE = C(1)


def run(cx):
    n = 0
    for root in cx.roots(r'metrics::root_(counter|cstate|cvec)_.*'):
        if root.endswith(('_new', '_default')):
            continue
        r = cx.run(root)
        if r is None:
            continue
        by = '_by' in root
        nargs = cx.P.fns[cx.P.roots[root]]['nargs']
        amt = S('arg%d' % (nargs - 1)) if by else ONE
        cx.ob('returns', root, r.ret, 'no path returns')
        for p in r.ret:
            n += 1
            expect_add(cx, p, root, lambda old: None if old is None else add(64, old, amt), [C0])
    cx.need('counter-routes', 'roots', len(cx.runs), 18)
