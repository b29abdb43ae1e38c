"""Collection of a family with arbitrary (opaque) metric kind, label set, metadata and encoder.
Every path is reduced to its ordered effects; loops are summarised by their inductive index and the
rule shows that the index ranges over exactly the whole storage (array: its length; shards: the shard
count; table: its population at the time the shard's lock was taken), once per element, in one
iteration each; that an iteration samples its own cell exactly once (array cells only where
initialised, which is a fact of the path), with the label group decoded from that very cell's own
index or key, the family's own metadata and the given name; that the type is announced first, once."""
TECHNIQUE = 'value-flow dataflow with inductive loop summaries over MIR (coverage of index ranges, effect order)'
from .iters import *
from .errors import *
from .protocol import names

ARG0, NAME, ENC = S('arg0'), S('arg1'), S('arg2')
NB = ops.op('px', 'px_name_bytes', S('arg1'))
NL = mk('meta', NB)
SET = mk('fld', mk('val', ARG0), 2, 3)
META = mk('fld', mk('val', ARG0), 1, 3)
STORE = mk('fld', mk('val', ARG0), 0, 3)


def pxs(tr):
    return [e for e in tr if e.kind == 'px']


def block(es, i, begin, end, name=True):
    """events of one begin..end group starting at i: (middle, end event, next index) or None"""
    if i >= len(es) or es[i].name != begin:
        return None
    j = i + 1
    mid, nb, nl = [], [], []
    while j < len(es) and es[j].name != end:
        if es[j].name == 'px_sink':
            nb.append(es[j].args[1])
        elif es[j].name == 'px_name_len':
            nl.append(es[j].args[1])
        else:
            mid.append(es[j])
        j += 1
    if j == len(es):
        return None
    if es[j].args[0] is not ENC or any(e.args[0] is not ENC for e in es[i:j]):
        return None
    if nb != [NB] or nl != [NL]:
        return None
    return mid, es[j], j + 1


def one_sample(tr, cell, meta, group):
    """the trace is exactly one complete sample of `cell` with `group` (None: no labels)"""
    es = pxs(tr)
    if not es:
        return 'no sample'
    b = block(es, 0, 'px_begin_sample', 'px_end_sample')
    if b is None:
        return 'not one sample under the given name: %s' % [e.name for e in es]
    mid, end, nx = b
    if nx != len(es):
        return 'more than one sample: %s' % [e.name for e in es]
    if [x for x in end.args[1:]] != [cell, meta]:
        return 'samples %s with metadata %s, not the visited cell with the family metadata' % (show(end.args[1])[:120], show(end.args[2])[:80])
    if group is None:
        return None if not mid else 'unexpected labels'
    if [e.name for e in mid] != ['px_label_name', 'px_label_str'] or mid[1].args[1] is not ops.op('px', 'px_grp_str', group):
        return 'labels %s are not the group of the visited cell' % [str(e)[:160] for e in mid]
    return None


def family(cx, root, r):
    nd = ns = 0
    for p in r.ret:
        I = r.I
        tr = p.trace
        es = pxs(tr)
        b = block(es, 0, 'px_begin_type', 'px_end_type')
        if not cx.ob('type-first', root, b is not None and not b[0], 'the first output is not the type line of this family: %s' % [e.name for e in es][:6]):
            continue
        failed = p.facts.get(ops.op('discr', b[1].res))
        if failed == 1:
            cx.ob('type-first', root, b[2] == len(es), 'goes on after the type line failed')
            continue
        first = next((i for i, e in enumerate(tr) if e.kind == 'loop'), len(tr))
        endt = next(i for i, e in enumerate(tr) if e is b[1])
        cx.ob('type-first', root, endt < first, 'samples may precede the type line', b[1].site)
        cx.ob('type-once', root, len([e for e in every(I, tr) if e.name == 'px_begin_type']) == 1, 'the type is announced more than once', b[1].site)
        d = p.facts.get(ops.op('discr', STORE))
        tail = tr[endt + 1:]
        if p.val is not None and p.val.op == 'agg' and p.val.a[0] == 0:
            if d == 0:
                nd += 1
                dense(cx, root, p, tail)
            elif d == 1:
                ns += 1
                sparse(cx, root, p, tail)
            else:
                cx.ob('covers-storage', root, False, 'a path does not look at the storage')
        else:
            # error path: the failing sample is the last thing done
            cx.ob('error-exit', root, p.val is not None and any(e.res is p.val or is_error_value(p.val, e.res) for e in es), 'returns %s' % show(p.val)[:120])
    cx.need('family-paths', root, min(nd, ns), 1)


def dense(cx, root, p, tail):
    I = p.run.I
    DENSE = mk('vfld', STORE, 0, 0, 1)
    n = mk('meta', DENSE)
    loops = [e for e in tail if e.kind == 'loop' and pxs(every(I, [e]))]
    if not loops:
        cx.ob('covers-array', root, I.known(p.st, ops.eq(n, C(0))) == 1 and not pxs(tail), 'a path samples nothing although the array is not known to be empty')
        return
    if not cx.ob('covers-array', root, len(loops) == 1, 'the array is visited by %d loops' % len(loops), I.loops[loops[0].x].site):
        return
    L = I.loops[loops[0].x]
    it = iterations(I, p.facts, tail[tail.index(loops[0]) + 1:], loops[0].x, n)
    if not cx.ob('covers-array', root, it is not None, 'the loop is not shown to visit every index 0..len', L.site):
        return
    seen = set()
    for facts, tr in it[0]:
        cell = None
        for t, v in facts.items():
            if t.op == 'op' and t.a[0] == 'discr' and t.a[1].op == 'sel' and t.a[1].a[0] is mk('val', DENSE):
                cell, disc = t.a[1], v
        if not cx.ob('array-cell', root, cell is not None and bijective_index(cell.a[1], L.k, n), 'an iteration does not look at its own cell', L.site):
            continue
        seen.add(disc)
        es = pxs(every(I, tr))
        if disc == 0:
            cx.ob('untouched-omitted', root, not es, 'a cell never touched is reported', L.site)
        else:
            w = one_sample(tr, mk('vfld', cell, 1, 0, 1), META, ops.op('px', 'px_set_decode_dense', SET, cell.a[1]))
            cx.ob('sampled-once', root, w is None, w or '', L.site)
    cx.ob('array-cell', root, seen == {0, 1}, 'initialised and untouched cells are not told apart', L.site)


def sparse(cx, root, p, tail):
    I = p.run.I
    SP = mk('vfld', STORE, 1, 0, 1)
    shards = None
    # the shard slice is the field of the sparse storage that holds the locked shards
    loops = [e for e in tail if e.kind == 'loop' and pxs(every(I, [e]))]
    if not loops:
        zero = [t for t, v in p.facts.items() if v == 1 and t.op == 'op' and t.a[0] == 'eq' and C(0) in t.a and any(x.op == 'meta' and contains(x, lambda y: y is SP) for x in t.a if isinstance(x, T))]
        cx.ob('covers-shards', root, bool(zero) and not pxs(tail), 'a path samples nothing although there may be shards')
        return
    if not cx.ob('covers-shards', root, len(loops) == 1, 'the shards are visited by %d loops' % len(loops)):
        return
    L = I.loops[loops[0].x]
    locks = [e for f, t, s in L.conts for e in t if e.kind == 'lock' and e.name.startswith('lock_')]
    if not cx.ob('covers-shards', root, bool(locks), 'no shard lock is taken', L.site):
        return
    lp = locks[0].args[0]
    idx = next((j for j, e in enumerate(lp.a[1]) if e[0] == 'i'), None) if lp.op == 'ptr' else None
    if not cx.ob('covers-shards', root, idx is not None and lp.a[0].op == 'deref', 'the lock taken is not that of a shard: %s' % show(lp)[:160], L.site):
        return
    n = mk('meta', lp.a[0].a[0])
    si = lp.a[1][idx][1]
    cx.ob('covers-shards', root, contains(lp.a[0], lambda y: y is SP) and bijective_index(si, L.k, n), 'shard index %s' % show(si)[:120], L.site)
    it = iterations(I, p.facts, tail[tail.index(loops[0]) + 1:], loops[0].x, n)
    if not cx.ob('covers-shards', root, it is not None, 'the loop is not shown to visit every shard', L.site):
        return
    for facts, tr in it[0]:
        lk = [e for e in tr if e.kind == 'lock' and e.name.startswith('lock_')]
        inner = [e for e in tr if e.kind == 'loop' and pxs(every(I, [e]))]
        direct = pxs(tr)
        if not cx.ob('covers-shards', root, len(lk) == 1 and lk[0].args[0] is lp and lk[0].x, 'an iteration does not lock its own shard', L.site):
            continue
        hv = lk[0].x[1]
        tl = [x for x in subterms_of(facts) if x.op == 'op' and x.a[0] == 'tlen' and x.a[1] is hv]
        n2 = ops.op('tlen', hv)
        if not inner:
            cx.ob('covers-table', root, not direct and any(v == 1 and t is ops.eq(n2, C(0)) for t, v in facts.items()), 'an iteration samples nothing though the shard may hold cells', L.site)
            continue
        if not cx.ob('covers-table', root, len(inner) == 1 and not direct, 'cells of a shard are visited %d times' % len(inner), L.site):
            continue
        L2 = I.loops[inner[0].x]
        it2 = iterations(I, facts, tr[tr.index(inner[0]) + 1:], inner[0].x, n2)
        if not cx.ob('covers-table', root, it2 is not None, 'the loop is not shown to visit every cell of the shard', L2.site):
            continue
        for f2, t2 in it2[0]:
            ends = [e for e in pxs(t2) if e.name == 'px_end_sample']
            if not cx.ob('sampled-once', root, len(ends) == 1, 'an iteration makes %d samples' % len(ends), L2.site):
                continue
            c = ends[0].args[1]
            if not cx.ob('sampled-once', root, c.op == 'fld' and c.a[1] == 1 and c.a[0].op == 'sel' and c.a[0].a[0] is hv and bijective_index(c.a[0].a[1], L2.k, n2),
                         'samples %s, not its own cell' % show(c)[:160], L2.site):
                continue
            w = one_sample([e for e in t2 if e.kind == 'px'], c, META, ops.op('px', 'px_set_decode', SET, mk('fld', c.a[0], 0, 2)))
            cx.ob('sampled-once', root, w is None, w or '', L2.site)
        # the lock is held from before the first sample to after the last
        i0, i1 = tr.index(lk[0]), tr.index(inner[0])
        un = [i for i, e in enumerate(tr) if e.kind == 'lock' and e.name.startswith('unlock')]
        cx.ob('under-lock', root, i0 < i1 and len(un) == 1 and un[0] > i1, 'the shard is not locked for the whole visit', L.site)


def subterms_of(facts):
    out = set()
    for t in facts:
        out |= subterms(t)
    return out


def single(cx, root, r, base):
    """Metric<M>: one type line, one unlabelled sample"""
    if r is None:
        return
    full = 0
    for p in r.ret:
        es = pxs(p.trace)
        d = p.facts.get(ops.op('discr', mk('val', ARG0))) if 'opt' in root else 1
        if d == 0:
            cx.ob('empty-option', root, not es and p.val.op == 'agg' and p.val.a[0] == 0, 'an absent metric produces output')
            continue
        b = block(es, 0, 'px_begin_type', 'px_end_type')
        if not cx.ob('type-first', root, b is not None and not b[0] and not any(e.kind == 'loop' for e in p.trace), 'first output is not the type line'):
            continue
        if p.facts.get(ops.op('discr', b[1].res)) == 1:
            cx.ob('error-exit', root, len(es) == b[2] and is_error_value(p.val, b[1].res), 'goes on after the type line failed')
            continue
        full += 1
        w = one_sample(es[b[2]:], proj(base, ('f', 0, 2)), proj(base, ('f', 1, 2)), None)
        cx.ob('sampled-once', root, w is None, w or '', es[-1].site)
    cx.need('single-paths', root, full, 1)


def run(cx):
    r = cx.run('metrics::root_fam_collect')
    if r:
        family(cx, r.name, r)
        check = [check_path(cx, r.name, p) for p in r.ret]
    single(cx, 'metrics::root_met_collect', cx.run('metrics::root_met_collect'), mk('val', ARG0))
    single(cx, 'metrics::root_optmet_collect', cx.run('metrics::root_optmet_collect'), mk('vfld', mk('val', ARG0), 1, 0, 1))
    r = cx.run('metrics::root_optfam_collect')
    if r:
        for p in r.ret:
            es = pxs(p.trace)
            if p.facts.get(ops.op('discr', mk('val', ARG0))) == 0:
                cx.ob('empty-option', r.name, not es and p.val.op == 'agg' and p.val.a[0] == 0, 'an absent family produces output')
                continue
            b = block(es, 0, 'px_begin_fam', 'px_end_fam')
            ok = b is not None and not b[0] and b[2] == len(es) and b[1].args[1] is mk('vfld', mk('val', ARG0), 1, 0, 1)
            cx.ob('option-delegates', r.name, ok, 'a present family is not collected exactly once under its name')
        cx.need('option-paths', r.name, len(r.ret), 2)
