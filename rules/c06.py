"""Cardinalities, dense indexes and array sizes, for every label-set shape. Every accepting path of
`encode`, continued through `encode_dense`, gives an index that is read as a mixed-radix number: its
bound is the product of the radices of its digits, and `cardinality` must be exactly that product, by
a computation every step of which is overflow-checked; it may be absent only for an overflow or an
unbounded label. The family constructors and accessors are analysed for an opaque set: the array is
as long as that cardinality and is addressed by exactly that index."""
TECHNIQUE = 'mixed-radix bound reasoning over path-sensitive value-flow terms from MIR, over every label-set shape'
NOTE = 'member sets, their cardinalities and the members are opaque; constructors and accessors are analysed for an arbitrary label set'
from .labelsets import *
from .c05 import dense_parts, inverts, kinds, modules, numbers, DENSE
from . import c29, c04

CARDS = ('px_set_card', 'px_set2_card')


def why_none(p):
    for f, v in p.facts.items():
        if f.op == 'op' and f.a[0] == 'ovf' and v == 1 and f.a[1] == 'Mul':
            return 'overflow'
        if f.op == 'op' and f.a[0] == 'discr' and v == 0 and is_px(f.a[1], *CARDS):
            return 'a part without a cardinality'
    return 'the part' if is_px(p.val, *CARDS) else None


def bounded(cx, m):
    enc, card = cx.run(m + '::root_encode', split=True), cx.run(m + '::root_card', split=True)
    dd = cx.run(m + '::root_decode_dense', split=True)
    if enc is None or card is None or dd is None:
        return 0
    ks, none_ = option_paths(card)
    cx.ob('cardinality-known', m, len(ks) >= 1, 'no path gives a cardinality', card.fnsite())
    for p in none_:
        cx.ob('absent-only-when-unbounded', m, why_none(p) is not None, 'a bounded set may report no cardinality', card.fnsite())
    for p in card.pan:
        cx.ob('no-panic', m, impossible(p.facts, Reducer(()), set()), 'may panic: %s' % p.val, p.site)
    some_, _ = option_paths(enc)
    n = 0
    for d, facts, k in dense_parts(cx, m, some_):
        n += 1
        b = below(poly_parts(d)) if d is not C(0) else ()
        mk_ = mono(k)
        pos = positives(d)
        if not cx.ob('index-is-positional', m, b is not None, 'the index %s is not a number below a product of cardinalities' % show(d)[:300], card.fnsite()):
            continue
        cx.ob('cardinality-is-product', m, mk_ is not None and mk_[0] == 1 and tuple(sorted(mk_[1], key=key)) == b,
              'the cardinality is %s but indexes run below %s' % (show(k)[:200], ' * '.join(show(x) for x in b) or '1'), card.fnsite())
        cx.ob('overflow-checked', m, exact(k, facts, pos), 'the product %s is not overflow-checked' % show(k)[:200], card.fnsite())
        cx.ob('index-exact', m, exact(d, facts, pos), 'the index %s may wrap around' % show(d)[:200], card.fnsite())
        inverts(cx, 'distinct-index', m, d, facts, dd, A1, A1)
    cx.ob('accepts', m, n >= 1, 'no path gives an index', enc.fnsite())
    ed = cx.run(m + '::root_encode_dense', split=True)
    for u, p in some_ if ed else ():
        for k, pk in ks:
            for q in option_paths(ed)[1] + ed.pan:
                fs = {subst(f, {A1: u}): v for f, v in q.facts.items()}
                if q.kind == 'ret' and q.val.op != 'agg':
                    fs[ops.op('discr', subst(q.val, {A1: u}))] = 0
                R = Reducer(positives(u))
                cx.ob('index-for-every-group', m, impossible(fs, R, R.pos, merge(taken(p), taken(pk))), 'an accepted group of a bounded set may have no index', ed.fnsite())
    return 1


def covers(cx, m, ks):
    """every bounded label of the group is a digit of the index"""
    enc = cx.run(m + '::root_encode', split=True)
    if enc is None:
        return
    some_, _ = option_paths(enc)
    for u, p in some_:
        for x in numbers(u)[:1]:
            parts = poly_parts(x)
            n = len(parts)
            cx.ob('one-digit-per-label', m, n == sum(k in 'exfg' for k in ks), '%d digits for %d bounded labels' % (n, sum(k in 'exfg' for k in ks)), enc.fnsite())


def unbounded(cx, m):
    n = 0
    for root, what in (('root_card', 'a cardinality'), ('root_encode_dense', 'an index')):
        r = cx.run(m + '::' + root, split=True)
        if r is None:
            continue
        s, _ = option_paths(r)
        s = [(v, p) for v, p in s if not dead(p)]
        cx.ob('unbounded-has-none', m, not s, 'a set with an unbounded label reports %s: %s' % (what, show(s[0][0])[:160] if s else ''), r.fnsite())
        for p in r.pan:
            cx.ob('no-panic', m, impossible(p.facts, Reducer(()), set()), 'may panic: %s' % p.val, p.site)
        n = 1
    return n


def dead(p):
    return False


def label(cx, m, fixed):
    """a fixed set's optional cardinality is its cardinality; an unbounded one has none"""
    dc = cx.run(m + '::root_dcard', split=True)
    c = cx.run(m + '::root_card', split=True) if fixed else None
    if dc is None or fixed and c is None:
        return 0
    if not fixed:
        for p in dc.ret:
            ok = p.val is agg(0, ()) or is_px(p.val, 'px_ldyn_dcard', 'px_ldyn2_dcard')
            cx.ob('unbounded-has-none', m, ok, 'an unbounded set reports %s' % show(p.val)[:160], dc.fnsite())
        return 1
    enc = cx.run(m + '::root_encode', split=True)
    some_, _ = option_paths(enc) if enc else ([], [])
    for p in c.pan:
        cx.ob('no-panic', m, impossible(p.facts, Reducer(()), set()), 'may panic: %s' % p.val, p.site)
    for q in c.ret:
        for p in dc.ret:
            v = some(p.val) if p.val.op != 'agg' or len(p.val.a) == 2 else None
            ok = v is q.val or v is not None and is_px(p.val, 'px_lfix_dcard') and q.val is px('px_lfix_card', p.val.a[2])
            cx.ob('one-cardinality', m, ok, 'cardinality %s, but reported as %s' % (show(q.val)[:120], show(p.val)[:120]), dc.fnsite())
        for u, p in some_:
            r = radix(u)
            cx.ob('index-below', m, r is not None and r is q.val, 'indexes %s are not below %s' % (show(u)[:160], show(q.val)[:160]), enc.fnsite())
    cx.ob('accepts', m, len(some_) >= 1, 'no path accepts a label', m)
    return 1


def families(cx):
    """the array is addressed by the index of the group that was given, and nothing else"""
    set_ = mk('fld', mk('val', A0), 2, 3)
    STORE = mk('fld', mk('val', A0), 0, 3)
    KEY = some(px('px_set_encode', set_, A1))
    IDX = some(px('px_set_encode_dense', set_, KEY))
    n = 0
    for root in cx.roots(r'metrics::root_fam_(access|access_mut|with_labels|try_with_labels)'):
        r = cx.run(root)
        if r is None:
            continue
        for p in r.ret:
            _, idx = c04.places(p)
            for d in idx:
                n += 1
                cx.ob('cell-of-group', root, d.a[1][-1][1] is IDX, 'the cell addressed is %s, not the index of the group given' % show(d.a[1][-1][1])[:200], r.fnsite())
    cx.need('accesses', 'array accesses', n, 4)
    n = 0
    for root in ('metrics::root_fam_with_labels', 'metrics::root_fam_try_with_labels'):
        r = cx.run(root, split=True)
        for p in r.ret if r else ():
            if p.facts.get(ops.op('discr', STORE)) != 0:
                continue
            for x in subterms(p.val):
                if x.op == 'agg' and len(x.a) == 3 and x.a[1] is KEY:
                    n += 1
                    cx.ob('identifier-index', root, x.a[2] is IDX, 'the identifier carries %s, not the index of the group given' % show(x.a[2])[:160], r.fnsite())
    cx.need('identifiers', 'array identifiers', n, 2)


def run(cx):
    n = u = 0
    for m in modules(cx, r'shapes::s_\w+::root_card'):
        ks = kinds(m)
        if set(ks) & set('dh'):
            u += unbounded(cx, m)
        else:
            n += bounded(cx, m)
        covers(cx, m, ks)
    for m in modules(cx, r'labels::g_\w+::root_card'):
        if m.split('::g_')[1] in DENSE:
            n += bounded(cx, m)
        else:
            u += unbounded(cx, m)
    cx.need('bounded', 'label-set shapes', n, 30)
    cx.need('unbounded', 'label-set shapes', u, 40)
    k = 0
    for m in modules(cx, r'labels::[fd]_\w+::root_dcard'):
        k += label(cx, m, m.split('::')[1].startswith('f_'))
    cx.need('labels', 'single-label sets', k, 11)
    k = sum(c29.construct(cx, root) for root in cx.roots(r'metrics::root_new\w*'))
    cx.need('constructors', 'roots', k, 13)
    families(cx)
