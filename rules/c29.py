"""Every constructor is analysed for an opaque label set: the storage variant of each path is compared
with the cardinality established on that path, the array length with the cardinality, the cells with
the untouched state, and label set and metadata with the ones given. Creation, pre-initialisation and
removal are compared with their specification on every path; pre-initialisation is solved as an
induction over the array."""
TECHNIQUE = 'path-sensitive value-flow dataflow with inductive loop summaries over MIR'
from .iters import *
from .errors import every
from .cells import *

LIMIT = 1024
DEF = mk('op', 'px', 'px_metric_default') if False else ops.op('px', 'px_metric_default')
ARG0 = S('arg0')
NO = agg(0, ())


def fields(v):
    return list(v.a[1:]) if v.op == 'agg' else []


def storage(p, v):
    """('dense', length, element) | ('sparse', population term list) | None"""
    st = p.st
    if v.op != 'agg':
        return None
    ptrs = [x for x in subterms(v) if x.op == 'ptr' and x.a[0].op == 'heap']
    if not ptrs:
        return None
    hv = st.mem.get(ptrs[0].a[0])
    if hv is None and ptrs[0].a[2] is C0:
        return v.a[0], NO, C0, ptrs[0]
    n = ptrs[0].a[2]
    if hv is not None and hv.op == 'sto' and n is not None and n.op == 'c' and n.a[0] <= 256:
        els = {sel(hv, C(i)) for i in range(n.a[0])}
        hv = mk('rep', els.pop(), n) if len(els) == 1 else None
    if hv is None or hv.op != 'rep':
        return None
    return v.a[0], hv.a[0], hv.a[1], ptrs[0]


def same(p, I, a, b):
    """the path establishes a == b"""
    if a is b or I.known(p.st, ops.eq(a, b)):
        return True
    if p.facts.get(b) is not None and a is C(p.facts[b]):
        return True
    for x, y in ((a, b), (b, a)):
        # x counts the iterations of a loop each of which begins with x < y
        if x.op == 'k' and I.known(p.st, ops.ult(64, x, y)) == 0:
            L = I.loops.get(x.a[0])
            if L and L.conts and all(fx.get(ops.ult(64, x, y)) == 1 for fx, _, _ in L.conts):
                return True
    return False


def construct(cx, root):
    r = cx.run(root, split=True)
    if r is None:
        return 0
    fn = root.rsplit('::', 1)[1]
    set_ = ARG0 if '_ls' in fn else ops.op('px', 'px_set_default')
    meta = S('arg1') if '_ls_md' in fn else ARG0 if fn.endswith('_md') else ops.op('px', 'px_meta_default')
    card = ops.op('px', 'px_set_card', set_)
    c = proj(card, ('v', 1, 0, 1))
    dense = fn.startswith('root_new_dense')
    sparse = fn.startswith('root_new_sparse')
    seen = set()
    for p in r.ret:
        fs = fields(p.val)
        s = None
        for f in fs:
            if f.op == 'agg' and f is not set_ and f is not meta:
                s = storage(p, f) or s
        if not cx.ob('storage', root, s is not None, 'the storage built is not recognised: %s' % show(p.val)[:200]):
            continue
        cx.ob('label-set-given', root, set_ in fs, 'the label set kept is not the one given')
        cx.ob('metadata-given', root, meta in fs, 'the metadata kept is not the one given')
        var, el, n, ref = s
        empty_cell = el is NO or el.op == 'agg' and el.a[0] == 0 and len(el.a) == 1
        shard = any(x.op == 'op' and x.a[0] == 'tnew' for x in subterms(el))
        if not cx.ob('fresh', root, empty_cell or shard, 'the storage starts with %s' % show(el)[:120]):
            continue
        if empty_cell:
            seen.add('dense')
            cx.ob('array-sized', root, same(p, r.I, n, c) and (ref.a[2] in (n, c)), 'the array has %s cells' % show(n)[:120])
            cx.ob('forced-storage', root, not sparse, 'a family forced to be hashed is array-backed')
            lo, hi = r.I.interval(p.st, c)
            fixed = p.facts.get(ops.op('discr', card)) == 1
            cx.ob('storage-by-cardinality', root, fixed and (dense or hi <= LIMIT), 'array-backed with cardinality up to %d' % hi)
        else:
            seen.add('sparse')
            cx.ob('forced-storage', root, not dense, 'a family forced to be array-backed is hashed')
            if not sparse:
                lo, hi = r.I.interval(p.st, c)
                unbounded = p.facts.get(ops.op('discr', card)) == 0
                cx.ob('storage-by-cardinality', root, unbounded or lo > LIMIT, 'hashed although the cardinality may be %d' % lo)
    cx.ob('both-storages', root, seen == ({'dense'} if dense else {'sparse'} if sparse else {'dense', 'sparse'}), 'builds only %s' % sorted(seen))
    for p in r.pan:
        ok = dense and p.facts.get(ops.op('discr', card)) == 0
        cx.ob('panics-only-unbounded', root, ok, 'may panic: %s' % p.val, p.site)
    return 1


def created(p):
    """values of cells a path brings into existence"""
    out = []
    for e in p.every(('once', 'table')):
        if e.kind == 'once' and e.name == 'init':
            out.append((e.args[1], e.site))
        elif e.kind == 'table' and e.name == 'insert':
            out.append((proj(e.args[2], ('f', 1, 2)), e.site))
    for w in mem_writes(p):
        n = w.new
        if n.op == 'agg' and n.a[0] == 1 and len(n.a) == 2 and w.old is not None and w.old.op == 'sel':
            out.append((n.a[1], None))
    return out


def init_all(cx):
    root = 'metrics::root_fam_init_all'
    r = cx.run(root, split=True)
    if r is None:
        return
    STORE = mk('fld', mk('val', ARG0), 0, 3)
    DENSE = mk('vfld', STORE, 0, 0, 1)
    n = mk('meta', DENSE)
    nd = 0
    cx.ob('no-panic', root, not r.pan, 'may panic', r.pan[0].site if r.pan else None)
    for p in r.ret:
        I = r.I
        d = p.facts.get(ops.op('discr', STORE))
        if d == 1:
            cx.ob('init-dense-only', root, not p.trace and not mem_writes(p), 'a hashed family is changed')
            continue
        if not cx.ob('init-dense-only', root, d == 0, 'does not look at the storage'):
            continue
        loops = [e for e in p.trace if e.kind == 'loop']
        if not loops:
            cx.ob('init-covers', root, I.known(p.st, ops.eq(n, C(0))) == 1 and not mem_writes(p), 'no cell is initialised')
            continue
        L = I.loops[loops[0].x]
        it = iterations(I, p.facts, p.trace[p.trace.index(loops[0]) + 1:], loops[0].x, n) if len(loops) == 1 else None
        if not cx.ob('init-covers', root, it is not None, 'the loop is not shown to visit every cell', L.site):
            continue
        nd += 1
        leaf = [l for l in L.leaves if l[0] == 'lv' and l[2] is mk('val', DENSE)]
        ev = [e for f, t, s in L.conts for e in t if e.kind == 'once']
        if not cx.ob('init-once-each', root, len(leaf) == 1 or not leaf and ev, 'the cells are not updated in a recognised way', L.site):
            continue
        seen = set()
        for i, (facts, tr) in enumerate(it[0]):
            cells = [(t.a[1], v) for t, v in facts.items() if t.op == 'op' and t.a[0] == 'discr' and t.a[1].op == 'sel' and bijective_index(t.a[1].a[1], L.k, n)
                     and (t.a[1].a[0] is mk('val', DENSE) or leaf and t.a[1].a[0] is leaf[0][3])]
            if not cx.ob('init-once-each', root, len(cells) == 1, 'an iteration does not look at its own cell', L.site):
                continue
            cell, v = cells[0]
            seen.add(v)
            es = [e for e in tr if e.kind == 'once']
            if es or not leaf:
                cx.ob('init-missing-only', root, v == 1 and not es or v == 0 and len(es) == 1 and es[0].name == 'init' and es[0].args[1] is DEF, 'iteration over a cell in state %d: %s' % (v, [str(e)[:80] for e in es]), L.site)
            if not leaf:
                continue
            cur = leaf[0][3]
            new = leaf[0][4][i] if i < len(leaf[0][4]) else p.st.mem.get(mk('deref', DENSE))
            if v == 1:
                cx.ob('init-missing-only', root, new is cur, 'an existing cell is replaced', L.site)
            else:
                ok = new.op == 'sto' and new.a[0] is cur and new.a[1] is cell.a[1] and new.a[2] is agg(1, (DEF,))
                cx.ob('init-missing-only', root, ok, 'a missing cell becomes %s' % show(new)[:160], L.site)
        cx.ob('init-once-each', root, seen == {0, 1}, 'missing and existing cells are not told apart', L.site)
        if not it[1] and leaf:
            cx.ob('init-covers', root, p.st.mem.get(mk('deref', DENSE)) is leaf[0][3], 'cells are changed after the loop', L.site)
    cx.need('init-paths', root, nd, 1)


def remove(cx, root, fn):
    r = cx.run(root, split=True)
    if r is None:
        return
    STORE = mk('fld', mk('val', ARG0), 0, 3)
    kinds = set()
    for p in r.ret:
        d = p.facts.get(ops.op('discr', STORE))
        rm = [e for e in p.every(('table', 'once')) ]
        if d == 0:
            kinds.add('dense')
            cx.ob('remove-dense', root, p.val is NO and not rm, 'removing from an array-backed family returns %s' % show(p.val)[:80])
        elif rm:
            kinds.add('removed')
            e = rm[0]
            ok = len(rm) == 1 and e.name == 'remove' and e.res is not None and p.val is agg(1, (proj(e.res, ('f', 1, 2)),))
            cx.ob('remove-returns', root, ok, 'returns %s, not the state removed' % show(p.val)[:120], e.site)
        else:
            kinds.add('absent')
            cx.ob('remove-returns', root, p.val is NO, 'nothing was removed but %s is returned' % show(p.val)[:120])
    cx.ob('remove-cases', root, kinds == {'dense', 'removed', 'absent'}, 'cases %s' % sorted(kinds))


def run(cx):
    k = sum(construct(cx, root) for root in cx.roots(r'metrics::root_new\w*'))
    cx.need('constructors', 'roots', k, 13)
    m = 0
    for root, dflt in [(x, DEF) for x in cx.roots(r'metrics::root_fam_(get|get_mut|access|access_mut|with_labels|try_with_labels|reenter)')] + [(x, C(0)) for x in cx.roots(r'metrics::root_([cg]vec)_\w+')]:
        r = cx.run(root)
        if r is None:
            continue
        for p in r.ret:
            for v, site in created(p):
                m += 1
                cx.ob('new-cells-initial', root, v is dflt, 'a new cell starts as %s' % show(v)[:120], site)
    cx.need('creations', 'cells created', m, 30)
    init_all(cx)
    remove(cx, 'metrics::root_fam_remove', 0)
    # single metrics and initial states
    for root, want in (('root_met_new', agg(0, (DEF, ops.op('px', 'px_meta_default')))), ('root_met_default', agg(0, (DEF, ops.op('px', 'px_meta_default')))),
                       ('root_met_with_metadata', agg(0, (DEF, ARG0))), ('root_cstate_new', ARG0), ('root_gstate_new', ARG0), ('root_atomic_new', ARG0)):
        r = cx.run('metrics::' + root)
        if r:
            cx.ob('initial-state', r.name, len(r.ret) == 1 and not r.pan and (r.ret[0].val is want or same_fields(r.ret[0].val, want)), 'starts as %s' % show(r.ret[0].val)[:120])
    z = 0
    for root in cx.roots(r'metrics::(root_\w+_state_default|root_atomic_(zero|default))'):
        r = cx.run(root)
        if r:
            z += 1
            cx.ob('zero', root, len(r.ret) == 1 and zero(r.ret[0].val), 'starts as %s' % show(r.ret[0].val)[:80])
    for root in cx.roots(r'metrics::h\d+::root_default'):
        r = cx.run(root)
        if r:
            z += 1
            cx.ob('zero', root, len(r.ret) == 1 and zero(r.ret[0].val), 'starts as %s' % show(r.ret[0].val)[:120])
    cx.need('zero', 'states', z, 9)
    for root, i in (('metrics::root_fam_metadata', META), ('metrics::root_fam_label_set', SETF)):
        r = cx.run(root)
        if r:
            cx.ob('accessor', root, len(r.ret) == 1 and not r.pan and r.ret[0].val is i, 'returns %s' % show(r.ret[0].val)[:80])


META = ptr(mk('deref', ARG0), (('f', 1, 3),), None)
SETF = ptr(mk('deref', ARG0), (('f', 2, 3),), None)


def same_fields(v, want):
    return v.op == 'agg' and want.op == 'agg' and set(v.a[1:]) == set(want.a[1:])


def zero(v):
    if v.op == 'c':
        return v.a[0] == 0
    if v.op == 'f':
        return show(v) in ('0.0f', '0')
    if v.op == 'rep':
        return zero(v.a[0])
    return v.op in ('agg', 'arr', 'unit') and all(zero(x) for x in v.a if isinstance(x, T)) and (v.op != 'agg' or v.a[0] == 0)
