"""Net effect of a call on metric cells."""
from engine.lib import *


def cell_updates(p):
    """net updates of cells on a path: atomics when access is shared, memory when exclusive"""
    shared = atomic_writes(p.run.I, p.facts, p.trace)
    inserts = [W(e.args[0], None, e.args[2], 'insert', e.site, True) for e in p.trace if e.kind == 'table' and e.name == 'insert']
    inits = [W(e.args[0], None, e.args[1], 'init', e.site, True) for e in p.trace if e.kind == 'once' and e.name == 'init']
    excl = []
    if not shared and not any(e.kind == 'lock' for e in p.trace):
        excl = mem_writes(p)
    return shared, inserts, inits, excl


def expect_add(cx, p, inst, f, zero):
    """exactly one cell changes, from its old value v to f(v); created cells start from zero"""
    shared, inserts, inits, excl = cell_updates(p)
    for e in p.trace:
        if e.kind == 'loop':
            for fx, tr, s in p.run.I.loops[e.x].conts:
                ws = atomic_writes(p.run.I, fx, tr)
                cx.ob('no-update-in-retry', inst, not ws, 'a repeated iteration updates the cell: %s' % ws, ws[0].site if ws else None)
            stale_retry(cx, p, inst, e)
    if shared:
        w = shared[0]
        ok = len(shared) == 1 and fbits(w.new) is fbits(f(w.old))
        cx.ob('one-exact-rmw', inst, ok, '; '.join(map(str, shared))[:500], w.site)
        z = [c for c in inserts + inits if not is_zero_cell(c.new, zero)]
        cx.ob('fresh-cell-zero', inst, not z, str(z)[:300], z[0].site if z else None)
        cx.ob('no-other-effect', inst, not excl, str(excl)[:300])
        return ok
    # exclusive route: drop bookkeeping of creations, keep value changes
    vals = [w for w in excl if not w.created]
    crea = [w for w in excl if w.created]
    if len(vals) == 1 and not crea:
        w = vals[0]
        return cx.ob('one-exact-rmw', inst, fbits(w.new) is fbits(f(w.old)), str(w)[:500], None)
    if len(crea) + len(vals) <= 2 and crea:
        # cell created on this path: its value after the call must be zero then the update
        c = crea[0]
        v = vals[0].new if vals else strip_cell(c.new)
        base = strip_cell(c.new) if vals else None
        ok = fbits(v) in [fbits(f(z)) for z in zero] and (not vals or is_zero_cell(c.new, zero))
        return cx.ob('one-exact-rmw', inst, ok, str(excl)[:500], None)
    return cx.ob('one-exact-rmw', inst, False, 'no single cell update: %s' % (excl,), None)


def stale_retry(cx, p, inst, e):
    """an exchange that is tried again expects what the cell was last seen to hold: the value of a read of it in the same
    iteration, or what the failed attempt found (any other expectation may never be met, and the update never happen)"""
    L = p.run.I.loops[e.x]
    for fx, tr, s in L.conts:
        for i, a in enumerate(tr):
            if a.kind != 'atomic' or not a.name.startswith('cas'):
                continue
            seen = [b.res for b in tr[:i] if b.kind == 'atomic' and b.args[0] is a.args[0] and b.res is not None]
            ok = any(a.args[1] is x for x in seen)
            if not ok:
                for k, loc, init, sym, ups in L.leaves:
                    if sym is a.args[1]:
                        now = [b.res for b in tr if b.kind == 'atomic' and b.args[0] is a.args[0] and b.res is not None]
                        ok = k == 'lv' and all(u in now or any(b.kind == 'atomic' and b.args[0] is a.args[0] and b.res is u for q in L.conts for b in q[1]) for u in ups)
            cx.ob('retry-reads-again', inst, ok, 'after a failed exchange the next attempt expects %s, which is not what the cell was seen to hold' % show(a.args[1])[:100], a.site)


def strip_cell(v):
    """value part of a fresh cell: Some(x) or (key, x)"""
    while v.op == 'agg' and len(v.a) >= 2:
        v = v.a[-1]
    return v


def is_zero_cell(v, zero):
    v = strip_cell(v)
    return fbits(v) in [fbits(z) for z in zero]


def fbits(v):
    """a float constant and its bit pattern are the same value of a cell"""
    return C(v.a[0]) if v is not None and v.op == 'f' else v
