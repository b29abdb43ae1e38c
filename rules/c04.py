"""The place each access route addresses is computed by value-flow analysis on all paths (shared,
exclusive, removal; each composed with the identifier computation) and compared: one table place and
one slot for all routes; the slot is selected by equality of the whole encoded key under the hash of
that key; the hash given for growth, applied to an entry, is the same function of its key as the hash
the entry was inserted with; array-backed routes all use the index the label set assigned. The index
into the shard array is bounded by the array length that the constructor pairs with the shift."""
TECHNIQUE = 'value-flow (Herbrand equality) analysis of all MIR paths, route by route'
from .protocol import *
from engine.prims import ENTV

KEY = None


def enc_parts():
    fam = mk('val', S('arg0'))
    e = [i for i in range(3)]
    return fam


def kinds(p, val_of):
    """which representation a path is about, by its facts on the family's storage variant"""
    for t, v in p.facts.items():
        if t.op == 'op' and t.a[0] == 'discr' and t.a[1].op == 'fld' and t.a[1].a[0] is mk('val', S('arg0')):
            return v
    return None


def run(cx):
    sparse, dense = {}, {}
    routes = {'get': 'metrics::root_fam_access', 'get_mut': 'metrics::root_fam_access_mut', 'remove': 'metrics::root_fam_access_remove'}
    ids = {'get': 'metrics::root_fam_get', 'get_mut': 'metrics::root_fam_get_mut', 'remove': 'metrics::root_fam_remove'}
    keyhash = mk('fld', ENTV, 0, 2)
    grown, hashes = set(), set()
    for group in (routes, ids):
        for name, root in group.items():
            r = cx.run(root)
            if r is None:
                continue
            for p in r.ret:
                for e in p.every(('rehash',)):
                    cx.ob('growth-hash-own-key', root, depends_only(e.args[1], keyhash), '%s re-hashes an entry with %s, which is not a function of that entry\'s key alone' % (e.name, show(e.args[1])[:160]), e.site)
                    grown.add((root, e.name, e.args[1], e.site))
                tabs, idx = places(p)
                for tp, slot in tabs:
                    sparse.setdefault(group is ids, {}).setdefault((tp, slot), set()).add(name)
                for d in idx:
                    dense.setdefault(group is ids, {}).setdefault(d, set()).add(name)
                for e in p.every(('table',)):
                    if e.name == 'insert':
                        hashes.add(e.args[3])
                        k = proj(e.args[2], ('f', 0, 2))
                        re_ = subst(e.args[3], {mk('fld', ENTV, 0, 2): k})
                        cx.ob('growth-hash-own-key', root, depends_only(e.args[3], mk('fld', ENTV, 0, 2)), 'growth re-hashes an entry with %s, which is not a function of that entry\'s key alone' % show(e.args[3])[:160], e.site)
                        if group is routes:
                            cx.ob('growth-hash', root, re_ is e.args[1], 'entries are re-hashed with %s but were inserted under %s' % (show(e.args[3])[:160], show(e.args[1])[:160]), e.site)
    for root, what, h, site in grown:
        cx.ob('growth-hash', root, hashes == {h}, '%s re-hashes entries with %s, growth on insertion with %s' % (what, show(h)[:160], [show(x)[:100] for x in hashes]), site)
    for isid, m in sparse.items():
        inst = 'identifier routes' if isid else 'label routes'
        ok = len(m) == 1 and {'get', 'get_mut', 'remove'} <= next(iter(m.values()))
        cx.ob('same-slot', inst, ok, '; '.join('%s: %s slot %s' % (sorted(v), show(t)[:200], show(s)[:200]) for (t, s), v in m.items()))
        for (tp, slot) in m:
            cx.ob('full-key-equality', inst, slot.a[0] == 'slot', 'entries are matched by %s, not by equality of the whole key' % show(slot)[:300])
            if slot.a[0] == 'slot' and not isid:
                k = slot.a[2]
                good = k.op == 'vfld' and k.a[0].op == 'op' and k.a[0].a[:2] == ('px', 'px_set_encode') and k.a[0].a[3] is S('arg1')
                cx.ob('key-is-encoded-group', inst, good, show(k))
                syms = [x for x in subterms(slot.a[1]) if x.op == 'sym' and x.a[0] != 'arg0' and x.a[0] != 'arg1']
                cx.ob('hash-of-key', inst, not syms and depends_only(slot.a[1], k), 'the hash is not a function of the key alone: %s' % show(slot.a[1])[:300])
            if slot.a[0] == 'slot' and isid:
                cx.ob('key-is-identifier', inst, slot.a[2] is mk('fld', S('arg1'), 0, 2) and slot.a[1] is mk('fld', S('arg1'), 1, 2) or slot.a[2] is mk('fld', S('arg1'), 1, 2) and slot.a[1] is mk('fld', S('arg1'), 0, 2), show(slot))
    cx.need('sparse', 'route families', len(sparse), 2)
    for isid, m in dense.items():
        inst = 'identifier routes' if isid else 'label routes'
        ok = len(m) == 1 and {'get', 'get_mut'} <= next(iter(m.values()))
        cx.ob('same-index', inst, ok, '; '.join('%s: %s' % (sorted(v), show(d)[:300]) for d, v in m.items()))
        if not isid:
            for d in m:
                i = d.a[1][-1][1]
                good = i.op == 'vfld' and i.a[0].op == 'op' and i.a[0].a[:2] == ('px', 'px_set_encode_dense')
                cx.ob('index-from-set', inst, good, show(i)[:300])
    cx.need('dense', 'route families', len(dense), 2)
    # the labelled update methods address the same places
    base = {(t, s) for (t, s) in sparse.get(False, {})}
    based = set(dense.get(False, {}))
    n = 0
    for root in cx.roots(r'metrics::root_(cvec|gvec|fvec)_(inc|dec|inc_by|dec_by|set|inc_mut|inc_by_mut)|metrics::h3::root_v(ec_(observe|dur|since)|timer_(observe|drop))'):
        r = cx.run(root)
        if r is None:
            continue
        for p in r.ret:
            tabs, idx = places(p)
            ok = set(tabs) <= base and set(idx) <= based and (tabs or idx)
            n += 1
            cx.ob('update-routes', root, ok, 'addresses %s %s' % ([show(s)[:150] for t, s in tabs], [show(x)[:150] for x in idx]))
    cx.need('update-routes', 'paths', n, 40)
    # removal of a dense cell, look-ups of another family's place: none expected
    shard_range(cx, base)
    # identifiers compare by key
    r = cx.run('metrics::root_id_eq')
    if r:
        a, b = mk('val', S('arg0')), mk('val', S('arg1'))
        want = {ops.eq(mk('fld', a, 0, 2), mk('fld', b, 0, 2))}
        for p in r.ret:
            v = p.val
            ok = v in want or v is TRUE and all(p.facts.get(w) == 1 for w in want) or v is FALSE and any(p.facts.get(w) == 0 for w in want)
            cx.ob('identifier-equality', r.name, ok, show(v))
    r = cx.run('metrics::root_id_clone')
    if r:
        for p in r.ret:
            cx.ob('identifier-clone', r.name, p.val is mk('val', S('arg0')), show(p.val))


def depends_only(t, k):
    """every leaf of t below is either constant or inside k"""
    return not contains(subst(t, {k: C(7)}), lambda x: x.op in ('sym', 'val', 'hv', 'ev', 'lv'))


def places(p):
    """table slots and array cells a path addresses"""
    tabs, idx = set(), set()
    ts = [p.val] if p.val is not None and isinstance(p.val, T) else []
    for e in p.every(('atomic', 'once', 'table')):
        ts.append(e.args[0])
        if e.kind == 'table' and e.name == 'remove':
            tabs.add((e.args[0], e.args[1]))
        if e.kind == 'table' and e.name == 'insert':
            k = proj(e.args[2], ('f', 0, 2))
            tabs.add((e.args[0], ops.op('slot', e.args[1], k)))
    for u in mem_writes(p):
        ts.append(u.loc)
    for t in p.facts:
        if t.op == 'op' and t.a[0] == 'has':
            x = root_version(t.a[1])
            if x.op == 'hv' and isinstance(x.a[2], T) and x.a[2].op == 'ptr':
                tabs.add((x.a[2], t.a[2]))
    for t in ts:
        for x, tp, slot in slots_in(t):
            tabs.add((tp, slot))
        for x in subterms(t):
            if x.op == 'ptr' and x.a[1] and x.a[2] is None:
                # array cell: &*DENSE[i] (payload projections stripped)
                pth = x.a[1]
                if pth[0][0] == 'i' and not any(e[0] == 'i' for e in pth[1:]) and all(e[0] == 'v' or e[0] == 'f' for e in pth[1:]) \
                        and x.a[0].op == 'deref' and is_dense(x.a[0].a[0]):
                    idx.add(ptr(x.a[0], pth[:1], None))
    return tabs, idx


def is_dense(v):
    """field 0 of variant 0 of the family's storage"""
    while v.op in ('fld', 'vfld'):
        if v.op == 'vfld':
            return v.a[1] == 0 and not contains(v, lambda x: x.op == 'sel')
        v = v.a[0]
    return False


def shard_range(cx, base):
    """the shard index is below the number of shards, for the values the constructor gives"""
    r = cx.run('metrics::root_new_sparse_ls_md')
    maps = []
    if r:
        for p in r.ret:
            v = p.val
            maps.append((p, v))
    cx.ob('anchor', 'constructor', maps, 'no path of the hashed constructor returns')
    for tp, slot in base:
        idx = [e for e in tp.a[1] if e[0] == 'i']
        if len(idx) != 1:
            cx.ob('shard-in-range', 'shape', False, show(tp)[:300])
            continue
        i = idx[0][1]
        shards = tp.a[0].a[0] if tp.a[0].op == 'deref' else None   # pointer to the shard array
        for p, v in maps:
            ok, why = in_range(p, v, i, shards)
            cx.ob('shard-in-range', 'constructor path', ok, why)


def resolve(fam, t):
    """the value a field path of `val(arg0)` has in the constructed family"""
    if t.op == 'fld':
        b = resolve(fam, t.a[0])
        return proj(b, ('f', t.a[1], t.a[2])) if b is not None else None
    if t.op == 'vfld':
        b = resolve(fam, t.a[0])
        return proj(b, ('v', t.a[1], t.a[2], t.a[3])) if b is not None else None
    if t is mk('val', S('arg0')):
        return fam
    return None


def power_of_two(n):
    """(is n a power of two, least exponent known)"""
    if n.op == 'c':
        x = n.a[0]
        return x > 0 and x & (x - 1) == 0, x.bit_length() - 1
    if n.op == 'op' and n.a[0] == 'npow2':
        m = n.a[2]
        if m.op == 'poly':
            # c * x with x >= 1 (available parallelism is non-zero) is at least c
            cs = [c for _, c in m.a[1]]
            if len(cs) == 1:
                return True, max(0, (cs[0] - 1).bit_length())
        return True, 0
    if n.op == 'op' and n.a[0] == 'shl':
        b, k = power_of_two(n.a[2])
        return b, k
    return False, 0


def in_range(p, fam, i, shards):
    sh = resolve(fam, shards)
    if sh is None or sh.op != 'ptr' or sh.a[2] is None:
        return False, 'the shard array of a constructed family is not known: %s' % show(shards)[:200]
    n = sh.a[2]
    pw, lg = power_of_two(n)
    if i.op == 'op' and i.a[0] == 'shr':
        w, x, s = i.a[1], i.a[2], i.a[3]
        sv = resolve(fam, s) if s.op != 'c' else s
        if sv is None:
            return False, 'shift not known: %s' % show(s)
        while sv.op == 'op' and sv.a[0] in ('zext', 'trunc'):
            sv = sv.a[3]
        want = [sub(32, C(64), ops.op('ctz', 64, n)), sub(32, C(64), ops.int_cast(64, False, 32, ops.op('ctz', 64, n))), sub(64, C(64), ops.op('ctz', 64, n)),
                ]
        if n.op == 'c':
            want.append(C(64 - (n.a[0].bit_length() - 1)))
        ok = pw and lg >= 1 and any(sv is q for q in want)
        # 64-bit value shifted right by 64-log2(n) is below n; n>=2 keeps the shift below 64
        return ok and w == 64, 'index %s with shift %s for %s shards' % (show(i)[:120], show(sv)[:120], show(n)[:120])
    if i.op == 'op' and i.a[0] == 'and':
        for a in i.a[2:]:
            b = subst(a, {mk('meta', shards): n})
            if b is sub(64, n, C(1)) and pw:
                return True, ''
    if i.op == 'op' and i.a[0] in ('urem', 'rem'):
        b = subst(i.a[-1], {mk('meta', shards): n})
        return b is n and (pw or (n.op == 'c' and n.a[0] > 0)), 'modulus %s of %s' % (show(b)[:100], show(n)[:100])
    return False, 'no argument bounds the shard index %s below %s' % (show(i)[:200], show(n)[:100])
