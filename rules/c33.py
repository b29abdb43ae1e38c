"""The count is solved as a loop accumulator: it starts at zero and every iteration class (the loop is
shown to cover every array cell, or every shard) adds exactly one for an initialised cell and nothing
for an untouched one, or exactly the population of the shard it has locked; the bound returned is the
array's own length or the label set's own answer; no path writes to a table, a cell or the family."""
TECHNIQUE = 'value-flow dataflow with accumulator/induction loop summaries over MIR'
from .iters import *
from .c07 import STORE, SET, ARG0

COUNT = ('f', 0, 2)


def leaf_of(I, v):
    """(loop, leaf) of the accumulator a value is read from"""
    for lid, L in I.loops.items():
        for l in L.leaves:
            if l[0] == 'lv' and (v is l[3] or v.op == 'poly' and contains(v, lambda x: x is l[3])):
                return lid, L, l
    return None, None, None


def run(cx):
    root = 'metrics::root_fam_cardinality'
    r = cx.run(root, split=True)
    if r is None:
        return
    nd = ns = 0
    for p in r.ret:
        I = r.I
        count, bound = proj(p.val, ('f', 0, 2)), proj(p.val, ('f', 1, 2))
        d = p.facts.get(ops.op('discr', STORE))
        cx.ob('changes-nothing', root, not p.every(('table', 'atomic', 'once', 'px')) and not real_writes(p), 'the query has side effects: %s' % [str(w) for w in real_writes(p)][:2])
        if d == 0:
            nd += 1
            DENSE = mk('vfld', STORE, 0, 0, 1)
            n = mk('meta', DENSE)
            cx.ob('bound', root, bound is agg(1, [n]), 'the bound of an array-backed family is %s' % show(bound)[:120])
        elif d == 1:
            ns += 1
            n = None
            cx.ob('bound', root, bound is ops.op('px', 'px_set_card', SET), 'the bound of a hashed family is %s' % show(bound)[:120])
        else:
            cx.ob('covers-storage', root, False, 'a path does not look at the storage')
            continue
        loops = [e for e in p.trace if e.kind == 'loop']
        if not loops:
            zero = [t for t, v in p.facts.items() if v == 0 and t.op == 'meta' and contains(t, lambda x: x is STORE)]
            cx.ob('covers', root, count is C(0) and bool(zero), 'counts %s without visiting the storage' % show(count)[:80])
            continue
        lid, L, leaf = leaf_of(I, count)
        if not cx.ob('covers', root, leaf is not None and len(loops) == 1 and loops[0].x == lid and leaf[2] is C(0), 'the count is not an accumulator starting at zero: %s' % show(count)[:160]):
            continue
        sym, steps = leaf[3], leaf[4]
        if d == 1:
            lks = [e for f, t, s in L.conts for e in t if e.kind == 'lock' and e.name.startswith('lock_')]
            lp = lks[0].args[0] if lks else None
            idx = next((j for j, e in enumerate(lp.a[1]) if e[0] == 'i'), None) if lp is not None and lp.op == 'ptr' else None
            if not cx.ob('covers', root, idx is not None and lp.a[0].op == 'deref' and contains(lp.a[0], lambda y: y is mk('vfld', STORE, 1, 0, 1)), 'no shard lock is taken per iteration', L.site):
                continue
            n = mk('meta', lp.a[0].a[0])
            cx.ob('covers', root, bijective_index(lp.a[1][idx][1], L.k, n), 'shard index %s' % show(lp.a[1][idx][1]), L.site)
        it = iterations(I, p.facts, p.trace[p.trace.index(loops[0]) + 1:], lid, n)
        if not cx.ob('covers', root, it is not None, 'the loop is not shown to visit every element', L.site):
            continue
        classes = [(f, t, sub(64, s, sym)) for (f, t), s in zip(it[0], list(steps) + ([count] if it[1] else []))]
        if not it[1]:
            cx.ob('covers', root, count is sym, 'the count is adjusted after the loop: %s' % show(count)[:120], L.site)
        for facts, tr, step in classes:
            if d == 0:
                cells = [(t.a[1], v) for t, v in facts.items() if t.op == 'op' and t.a[0] == 'discr' and t.a[1].op == 'sel' and t.a[1].a[0] is mk('val', DENSE) and bijective_index(t.a[1].a[1], L.k, n)]
                ok = len(cells) == 1 and step is C(cells[0][1])
                cx.ob('counts-initialised', root, ok, 'an iteration over %s adds %s' % ([(show(c)[:60], v) for c, v in cells], show(step)[:60]), L.site)
            else:
                lk = [e for e in tr if e.kind == 'lock' and e.name.startswith('lock_')]
                ok = len(lk) == 1 and lk[0].args[0] is lp and lk[0].x and step is ops.op('tlen', lk[0].x[1])
                cx.ob('counts-population', root, ok, 'an iteration adds %s, not the population of its shard' % show(step)[:120], L.site)
    cx.need('paths', root, min(nd, ns), 1)


def real_writes(p):
    return [w for w in mem_writes(p) if not refresh(w)]


def refresh(w):
    """the new view of a table that taking its lock gives is not a write"""
    t = w.new
    return all(x.op != 'op' or x.a[0] not in ('ins', 'rm') for x in subterms(t)) and (t.op == 'hv' or t.op == 'lvp' or t is w.old)
