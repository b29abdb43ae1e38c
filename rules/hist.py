"""What a path does to a histogram."""
from .cells import *


class Obs:
    """one observation: state place, bucket term (None: the +Inf counter), added value"""
    def __init__(self, base, bucket, inf, val, site, bw, sw):
        self.base, self.bucket, self.inf, self.val, self.site, self.bw, self.sw = base, bucket, inf, val, site, bw, sw


def writes(p, facts=None, trace=None):
    I = p.run.I
    sh = atomic_writes(I, facts or p.facts, p.trace if trace is None else trace)
    f = p.run.cx.P.fns[p.run.cx.P.roots[p.run.name]]
    d = p.run.cx.P.tys[p.run.cx.P.core(f['locals'][1])]
    # behind a shared reference only atomics, locks and once-cells can change (C17 confines unsafe code)
    ex = [] if trace is not None or d['t'] == 'ref' and not d['m'] else [w for w in mem_writes(p) if not w.created and not lockview(w)]
    return sh, ex


def lockview(w):
    """views of memory refreshed by taking a lock or by an atomic access are not writes"""
    return w.new.op in ('hv', 'lvp') or w.new.op == 'fld' and w.new.a[0].op == 'hv' or w.new.op == 'sel' and lockview(W(w.loc, w.old, w.new.a[0], w.how))


def observation(p):
    """-> (Obs, None) or (None, reason)"""
    sh, ex = writes(p)
    for e in p.trace:
        if e.kind == 'loop':
            for fx, tr, s in p.run.I.loops[e.x].conts:
                w2, _ = writes(p, {**p.facts, **fx}, tr)
                if w2:
                    return None, 'a repeated iteration updates the histogram: %s' % w2[0]
    ws = sh + ex
    if len(ws) != 2:
        return None, '%d updates: %s' % (len(ws), '; '.join(map(str, ws))[:400])
    cnt = [w for w in ws if w.old is not None and w.new is add(64, w.old, C(1))]
    rest = [w for w in ws if w not in cnt]
    if len(cnt) != 1 or len(rest) != 1:
        return None, 'not one count by one and one sum: %s' % '; '.join(map(str, ws))[:400]
    c, s = cnt[0], rest[0]
    v = addend(s)
    if v is None:
        return None, 'the sum is not increased: %s' % s
    lp = c.loc
    if lp.op != 'ptr' or s.loc.op != 'ptr' or lp.a[0] is not s.loc.a[0]:
        return None, 'count and sum are updated in different places'
    path = lp.a[1]
    bucket = path[-1][1] if path[-1][0] == 'i' else None
    f = path[-2] if bucket is not None else path[-1]
    base = path[:-2] if bucket is not None else path[:-1]
    sb = s.loc.a[1]
    if sb[:-1] != base:
        return None, 'count and sum belong to different histograms: %s / %s' % (show(c.loc), show(s.loc))
    return Obs(ptr(lp.a[0], base, None), bucket, (f, sb[-1]), v, c.site, c, s), None


def addend(w):
    """v such that new = old + v (floating point, either operand order)"""
    if w.old is None:
        return None
    n = w.new
    if n.op == 'op' and n.a[0] == 'fadd':
        if n.a[2] is w.old:
            return n.a[3]
        if n.a[3] is w.old:
            return n.a[2]
    return None


def position_ok(facts, v, isthr, pos, n):
    """are the float-comparison facts of a path consistent with v at this position relative to
    strictly increasing thresholds? None of the other facts is interpreted."""
    def place(t):
        if t is v:
            return 'nan' if pos == 'nan' else pos
        i = isthr(t)
        return None if i is None else 2 * i + 1
    for t, val in facts.items():
        if t.op != 'op' or t.a[0] not in ('flt', 'fle', 'feq'):
            continue
        a, b = place(t.a[2]), place(t.a[3])
        if a is None or b is None:
            continue
        if a == 'nan' or b == 'nan':
            r = 0
        else:
            r = int({'flt': a < b, 'fle': a <= b, 'feq': a == b}[t.a[0]])
        if r != val:
            return False
    return True


def threshold_index(md, n):
    def f(t):
        if t.op == 'sel' and t.a[1].op == 'c' and peel(t.a[0]) is md:
            return t.a[1].a[0]
        return None
    return f


def peel(t):
    return t


def metadata(root):
    k = 3 if '::root_v' in root else 2
    return mk('fld', mk('val', S('arg0')), 1, k)


def value_of(root, cx, p):
    """the value the entry point is asked to observe"""
    n = cx.P.fns[cx.P.roots[root]]['nargs']
    last = S('arg%d' % (n - 1))
    if root.endswith('_observe') and 'timer' not in root:
        return last
    if root.endswith('_dur'):
        return ops.op('secs', last)
    ev = [e for e in p.trace if e.kind == 'time' and e.name == 'elapsed']
    return ops.op('secs', ev[0].res) if ev else None


ROOTS = r'metrics::h\d+::root_((guard_|gmut_|vec_)?(observe|dur|since)|v?timer_(observe|drop))'
