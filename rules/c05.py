"""Encoders and decoders of derived, composed, wrapped and provided label sets, composed by
substitution over opaque members. Every accepting path of the encoder is put through every path of
the decoder; `/` and `%` are reduced by the mixed-radix position argument, and the parts' own
contracts (an index is below its cardinality, decoding inverts encoding) are applied at the leaves.
What remains must be the label group that went in, on every path."""
TECHNIQUE = 'term-rewriting over path-sensitive value-flow terms from MIR (mixed-radix reduction), over every label-set shape'
NOTE = 'the parts are opaque label sets obeying the LabelSet contract, so the result holds for every member set; 75 derived shapes cover every kind, order and count up to 3 fields (selected up to 6)'
from .labelsets import *
import re
DENSE = ('static', 'composed', 'nested', 'nested_right', 'composed_static', 'arc', 'arc_composed', 'composed_arcs', 'ref', 'ref_composed', 'derived')
REFUSE = ('px_lfix_enc', 'px_ldef_enc', 'px_ldyn_enc', 'px_ldyn2_enc', 'px_set_encode', 'px_set2_encode', 'ext_IndexSet_get_index_of', 'ext_OrderedSet_get_index', 'ext_RodeoReader_get')


def why_refused(p):
    for f, v in p.facts.items():
        if f.op == 'op' and f.a[0] == 'discr':
            if v == 0 and is_px(f.a[1], *REFUSE):
                return 'a label outside its set'
            if v == 1 and is_px(f.a[1], 'ext_ThreadedRodeo_try_get_or_intern'):
                return 'no room to intern'
        if f.op == 'op' and f.a[0] == 'ovf' and v == 1:
            return 'overflow'
    return None


def numbers(t):
    """the integer polynomials inside a result"""
    if t.op == 'agg':
        out = []
        for x in t.a[1:]:
            out += numbers(x)
        return out
    return [t]


def inverts(cx, rule, inst, val, facts, dec, arg, what):
    """`dec` applied to the encoded `val` gives back the group on every path"""
    pos = positives(val)
    R = Reducer(pos)
    n = 0
    m = {arg: val}
    for p in dec.ret:
        fs = {subst(f, m): v for f, v in p.facts.items()}
        if impossible(fs, R, pos, facts):
            continue
        n += 1
        got = R.go(subst(p.val, m))
        cx.ob(rule, inst, got is what or got is UNIT and what is A1 and m_empty(inst), 'decoding the encoded value gives %s, not the group' % show(got)[:400], dec.fnsite())
    for p in dec.pan:
        fs = {subst(f, m): v for f, v in p.facts.items()}
        cx.ob(rule, inst, impossible(fs, R, pos, facts), 'decoding the encoded value may panic: %s' % p.val, p.site)
    cx.ob(rule, inst, n >= 1, 'no decoding path accepts the encoded value', dec.fnsite())


def m_empty(m):
    return m.endswith('::s_none')


def refused(p):
    return why_refused(p) is not None or p.val.op != 'agg' and is_px(p.val, *REFUSE)


def group(cx, m, dense):
    enc, dec = cx.run(m + '::root_encode', split=True), cx.run(m + '::root_decode', split=True)
    if enc is None or dec is None:
        return 0
    some_, none_ = option_paths(enc)
    cx.ob('accepts', m, len(some_) >= 1, 'no path accepts a group', enc.fnsite())
    for p in none_:
        cx.ob('refuses-only-foreign', m, refused(p), 'a group may be refused although every label is in its set', p.site or enc.fnsite())
    for p in enc.pan:
        cx.ob('no-panic', m, impossible(p.facts, Reducer(()), set()), 'encoding may panic: %s' % p.val, p.site)
    for u, p in some_:
        pos = positives(u)
        for x in numbers(u):
            cx.ob('no-wrap', m, exact(x, p.facts, pos), 'the identifier %s may wrap around' % show(x)[:300], enc.fnsite())
        inverts(cx, 'decode-inverts-encode', m, u, taken(p), dec, mk('val', A1), A1)
    if dense:
        dense_inverts(cx, m, some_)
    return 1


def dense_parts(cx, m, some_):
    """(index, facts, cardinality) for every accepted group and every path"""
    card, ed = cx.run(m + '::root_card', split=True), cx.run(m + '::root_encode_dense', split=True)
    if card is None or ed is None:
        return []
    ks, _ = option_paths(card)
    ds, _ = option_paths(ed)
    out = []
    for u, p in some_:
        for d, pd in ds:
            for k, pk in ks:
                mp = {A1: u}
                facts = merge(taken(p), {subst(f, mp): v for f, v in taken(pd).items()}, taken(pk))
                out.append((subst(d, mp), facts, k))
    return out


def dense_inverts(cx, m, some_):
    dd = cx.run(m + '::root_decode_dense', split=True)
    if dd is None:
        return
    n = 0
    for d, facts, k in dense_parts(cx, m, some_):
        pos = positives(d)
        for x in numbers(d):
            cx.ob('no-wrap', m, exact(x, facts, pos), 'the index %s may wrap around' % show(x)[:300], dd.fnsite())
        inverts(cx, 'decode-inverts-dense', m, d, facts, dd, A1, A1)
        n += 1
    cx.ob('accepts-dense', m, n >= 1, 'no path gives an index', dd.fnsite())


def kinds(m):
    s = m.split('::s_')[1]
    return '' if s == 'none' else s


def constructors(cx, m, ks):
    """`new` puts each given set where the encoder uses it for that field, defaults elsewhere"""
    new, enc = cx.run(m + '::root_new'), cx.run(m + '::root_encode', split=True)
    if new is None or enc is None:
        return 0
    want = {}
    args = [i for part in 'df' for i, k in enumerate(ks) if k == part]
    some_, _ = option_paths(enc)
    for u, p in some_:
        for x in subterms(u):
            if is_px(x, 'px_lfix_enc', 'px_ldef_enc', 'px_ldyn_enc', 'px_ldyn2_enc'):
                i = field_of(x.a[3], A1, len(ks))
                if i is not None:
                    want.setdefault(i, set()).add(x.a[2])
    for r in [new] + ([cx.run(m + '::root_default')] if not args else []):
        if r is None:
            continue
        for p in r.pan:
            cx.ob('constructor', m, False, 'may panic', p.site)
        for p in r.ret:
            for i, k in enumerate(ks):
                if k in 'ex':
                    continue
                t = {'f': 'px_lfix', 'g': 'px_ldef', 'd': 'px_ldyn', 'h': 'px_ldyn2'}[k]
                w = want.get(i, set())
                if not cx.ob('constructor', m, len(w) == 1, 'field %d is not encoded by one set' % i, enc.fnsite()):
                    continue
                got = subst(next(iter(w)), {mk('val', A0): p.val})
                exp = S('arg%d' % args.index(i)) if i in args else px(t + '_default')
                cx.ob('constructor', m, got is exp, 'field %d gets %s, not %s' % (i, show(got)[:120], show(exp)), r.fnsite())
    return 1


def field_of(t, base, n):
    if n == 1 and t is base:
        return 0
    return t.a[1] if t.op == 'fld' and t.a[0] is base else None


def label(cx, m):
    enc, dec = cx.run(m + '::root_encode', split=True), cx.run(m + '::root_decode', split=True)
    if enc is None or dec is None:
        return 0
    some_, none_ = option_paths(enc)
    cx.ob('accepts', m, len(some_) >= 1, 'no path accepts a label', enc.fnsite())
    for p in none_:
        cx.ob('refuses-only-foreign', m, refused(p), 'a member may be refused', p.site or enc.fnsite())
    for p in enc.pan:
        cx.ob('no-panic', m, impossible(p.facts, Reducer(()), set()), 'encoding may panic: %s' % p.val, p.site)
    for u, p in some_:
        inverts(cx, 'decode-inverts-encode', m, u, taken(p), dec, A1, A1)
    return 1


def modules(cx, rx):
    return sorted({n.rsplit('::', 1)[0] for n in cx.roots(rx)})


def run(cx):
    n = 0
    for m in modules(cx, r'shapes::s_\w+::root_encode'):
        ks = kinds(m)
        n += group(cx, m, not set(ks) & set('dh'))
        constructors(cx, m, ks)
    cx.need('derived', 'label-set shapes', n, 70)
    n = 0
    for m in modules(cx, r'labels::g_\w+::root_encode'):
        n += group(cx, m, m.split('::g_')[1] in DENSE)
    cx.need('composed', 'label-set compositions', n, 11)
    n = sum(label(cx, m) for m in modules(cx, r'labels::[fd]_\w+::root_encode'))
    cx.need('labels', 'single-label sets', n, 11)
