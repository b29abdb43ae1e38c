"""A typestate walk over every path of every family access route (look-up, first use, exclusive
access, removal, the labelled update methods): a cell is inserted in a hashed family only while that
shard's lock is held exclusively and after a look-up of the same key under the same hash, made since
that lock was taken, found nothing; removal happens only under the exclusive lock; a cell reached
through a shared reference is used or handed out only while its shard's lock is held and after the
cell was found in (or inserted into) the table during that very acquisition; an occupied slot and an
initialised array cell are never overwritten."""
TECHNIQUE = 'path-sensitive typestate analysis of lock and table states over MIR (Herbrand value numbering, loops summarised)'
from .protocol import *

ROUTES = r'metrics::root_(fam_(with_labels|try_with_labels|get|get_mut|remove|access|access_mut|access_remove|reenter|init_all|collect|cardinality)|(cvec|gvec|fvec)_.*)|metrics::h3::root_v(ec|timer)_.*'
SKIP = r'.*_fin_.*'


def run(cx):
    ins = rem = uses = locks = 0
    for root in cx.roots(ROUTES):
        if re.fullmatch(SKIP, root):
            continue
        r = cx.run(root)
        if r is None:
            continue
        for p in r.ret:
            w = Walk(cx, r, root, lambda rule, ok, d, s: cx.ob(rule, root, ok, d, s) if rule in RULES or not ok else None)
            held = w.path(p)
            ins += w.ninserts
            rem += w.nremoves
            uses += w.nuses
            locks += w.nlocks
            handed_out(cx, w, p, root, held)
            overwrites(cx, w, p, root)
        for p in r.pan:
            ls = [e for e in p.every(('lock',)) if e.name.startswith('lock')]
            if ls and not re.search(r'_fam_(collect|cardinality|init_all)', root) and not str(p.val).startswith('attempt to'):
                # another thread may have removed the cell: the look-up must not rely on it
                cx.ob('always-handed-out', root, False, 'panics after the shard lock was taken (%s): a cell another thread removed in between is not made again' % show(p.val)[:80] if p.val is not None else 'panics after the shard lock was taken', ls[-1].site)
    cx.need('inserts', 'paths', ins, 30)
    cx.need('removes', 'paths', rem, 2)
    cx.need('uses', 'paths', uses, 60)


RULES = ('insert-only-absent', 'remove-present', 'table-write-exclusive', 'current-version', 'cell-present', 'cell-used-under-lock')


def handed_out(cx, w, p, root, held):
    """cells in the returned value: stored in the table, and their lock still held shared"""
    shared = 'arg0' not in w.mutargs
    for x, tp, slot in slots_in(p.val):
        l, h = w.guard_of(held, tp)
        if shared:
            if not cx.ob('guard-holds-lock', root, h is not None, 'returns a cell of the table without holding its lock: %s' % show(x)[:200]):
                continue
            cx.ob('guard-owns-lock', root, l in returned_guards(p.val), 'the returned value does not own the lock %s that keeps its cell in place' % show(l)[:120], h.site)
            cx.ob('cell-present', root, present(p.facts, h.ver, slot) == 1, 'the returned cell was not found in the table since the lock was taken', h.site)
        else:
            a, pth, _ = tp.a
            v = p.run.I.base(p.st, a)
            for e in pth:
                v = proj(v, e)
            cx.ob('cell-present', root, present(p.facts, v, slot) == 1, 'the returned cell was not found in the table: %s' % show(slot))


def overwrites(cx, w, p, root):
    """values stored over existing cells"""
    for u in mem_writes(p):
        path = u.loc.a[1] if u.loc.op == 'ptr' else ()
        slotted = [e for e in path if e[0] == 'i' and isinstance(e[1], T) and e[1].op == 'op' and e[1].a[0] in ('slot', 'slotp')]
        if u.old is None:
            continue        # creation: judged at the insert / initialisation
        if u.new.op == 'agg' and u.new.a[0] == 1 and len(u.new.a) == 2 and not slotted:
            # Some(x) over an array cell
            o = p.facts.get(ops.op('discr', u.old))
            cx.ob('init-only-absent', root, o == 0, 'an array cell that may exist is overwritten: %s' % show(u.loc)[:200])
        elif 'root_fam_' in root:
            # none of these operations updates a value of the opaque metric type
            cx.ob('no-overwrite', root, u.new.op == 'hv' or not slotted and u.new.op in ('lv', 'lvp'), 'an existing cell is overwritten: %s' % u)
