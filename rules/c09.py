"""Both sides of the snapshot. Observers: on every path of every shared recording route the bucket
count and the sum are updated between one acquisition of the histogram's own lock and its release.
Scrapes: on every path of sampling, the state is read under one single exclusive acquisition, every
reported quantity is a function of what was there under that acquisition, and nothing of the state is
read outside it."""
TECHNIQUE = 'lock typestate and value-flow dataflow over MIR paths'
from .hist import *
from .protocol import prefix

SAMPLERS = r'text::(g[01]::root_hist[013]|g1i::root_hist1|root_met_hist|root_hist3_two)'


def flat(I, tr, depth=0):
    """events with position: loops stay one position, their inner events inherit it"""
    out = []
    for i, e in enumerate(tr):
        if e.kind == 'loop':
            def go(t):
                for x in t:
                    if x.kind == 'loop':
                        for f, t2, s in I.loops[x.x].conts:
                            go(t2)
                    else:
                        out.append((i, x, True))
            for f, t, s in I.loops[e.x].conts:
                go(t)
        else:
            out.append((i, e, False))
    return out


def windows(evs, base):
    """[(first, last, mode, lock event, in loop)] of acquisitions whose data contains base"""
    out = []
    for i, e, inl in evs:
        if e.kind == 'lock' and e.name.startswith('lock_') and e.x and prefix(e.x[0], base):
            end = next((j for j, x, l in evs if j >= i and x.kind == 'lock' and x.name.startswith('unlock') and x.args[0] is e.args[0] and (j > i or l)), None)
            out.append((i, end, e.name[5:], e, inl))
    return out


def observers(cx):
    n = 0
    for root in cx.roots(ROOTS):
        if 'gmut' in root:
            continue
        r = cx.run(root, split=True)
        if r is None:
            continue
        n += 1
        for p in r.ret:
            o, why = observation(p)
            if not cx.ob('one-update', root, o is not None, why):
                continue
            evs = flat(r.I, p.trace)
            ws = [w for w in windows(evs, o.base) if last_lock(w[3], o.base)]
            if not cx.ob('one-acquisition', root, len(ws) == 1 and not ws[0][4], 'the histogram is locked %d times for one observation' % len(ws), o.site):
                continue
            a, b, mode, e, _ = ws[0]
            at = [i for i, x, l in evs if x.kind == 'atomic' and prefix(o.base, x.args[0])]
            cx.ob('update-under-lock', root, at and b is not None and all(a < i < b for i in at), 'part of the observation happens outside the acquisition', o.site)
    cx.need('observing-routes', 'roots', n, 30)


def last_lock(e, base):
    """the lock whose data is the state itself (not the shard around it)"""
    return len(base.a[1]) - len(e.x[0].a[1]) <= 1


def samplers(cx):
    n = 0
    for root in cx.roots(SAMPLERS):
        r = cx.run(root)
        if r is None:
            continue
        n += 1
        H = ptr_of_hist(root)
        for p in r.ret:
            evs = flat(r.I, p.trace)
            lk = [(i, e, l) for i, e, l in evs if e.kind == 'lock' and e.name.startswith('lock_') and e.x and in_hist(e.x[0], H)]
            if not lk and p.val is not None and p.val.op == 'ev' and not any(isinstance(t, T) and touches(t, H) for t in reported(r.I, p)) and not any(e.kind == 'atomic' for i, e, l in evs):
                continue   # failed before the sample was taken
            if not cx.ob('one-acquisition', root, len(lk) == 1 and not lk[0][2], 'one sample locks the histogram %d times' % len(lk), lk[0][1].site if lk else None):
                continue
            i0, e, _ = lk[0]
            cx.ob('sample-exclusive', root, e.name == 'lock_exclusive', 'the sample is taken under a %s acquisition, which observers may share' % e.name[5:], e.site)
            i1 = next((i for i, x, l in evs if i > i0 and x.kind == 'lock' and x.name.startswith('unlock') and x.args[0] is e.args[0]), None)
            cx.ob('sample-released', root, i1 is not None, 'the lock is not released', e.site)
            at = [(i, x) for i, x, l in evs if x.kind == 'atomic' and in_hist(x.args[0], H)]
            cx.ob('read-under-lock', root, all(i0 < i < (i1 or 0) for i, x in at), 'part of the state is read outside the acquisition', at[0][1].site if at else None)
            a, pth, _ = e.x[0].a
            v = r.I.base(p.st, a)
            for q in pth:
                v = proj(v, q)
            cx.ob('sample-changes-nothing', root, v is e.x[1] and all(x.name == 'load' for i, x in at), 'taking the sample changes the histogram: %s' % show(v)[:160], e.site)
            # every value reported that stems from the histogram is the value under that acquisition
            ok = {e.x[1]} | {x.res for i, x in at}
            old = mk('val', H.a[0])
            bad = None
            for t in reported(r.I, p):
                for x in subterms(t):
                    if x.op == 'hv' and x not in ok and in_hist(hv_place(x), H):
                        bad = x
                    if x.op == 'fld' and x.a[0] is old and x.a[1] != 0 and 'met' not in root:
                        bad = x
            cx.ob('reports-snapshot', root, bad is None, 'reports %s, which was not read under the acquisition' % (show(bad)[:120] if bad is not None else ''), e.site)
    cx.need('sampling-routes', 'roots', n, 9)


def ptr_of_hist(root):
    return mk('deref', S('arg2'))


def touches(t, H):
    old = mk('val', H.a[0])
    return any(x is old or x.op == 'hv' and in_hist(hv_place(x), H) for x in subterms(t))


def hv_place(x):
    return x.a[-1]


def in_hist(p, H):
    return p is not None and p.op == 'ptr' and p.a[0] is H


def reported(I, p):
    out = []

    def go(tr):
        for e in tr:
            if e.kind == 'loop':
                L = I.loops[e.x]
                for l in L.leaves:
                    if l[0] == 'lv':
                        out.append(l[2])
                        out.extend(l[4])
                for f, t, s in L.conts:
                    go(t)
            elif e.kind == 'px':
                out.extend(a for a in e.args if isinstance(a, T))
    go(p.trace)
    return out


def run(cx):
    observers(cx)
    samplers(cx)
