"""Label-set codecs as mixed-radix numbers. Encoders and decoders are read as value-flow terms; the
rules below compose them by substitution and reduce `/` and `%` by the position argument (a number
whose digits are below their radix). No value is ever chosen: fields, sets, members, cardinalities
are all opaque."""
from engine.lib import *

A0, A1 = S('arg0'), S('arg1')


def px(name, *a):
    return ops.op('px', name, *a)


def some(t):
    """payload of an Option-valued term"""
    return proj(t, ('v', 1, 0, 1))


def okv(t):
    return proj(t, ('v', 0, 0, 1))


def is_px(t, *names):
    return isinstance(t, T) and t.op == 'op' and t.a[0] == 'px' and t.a[1] in names


def opt_of(t):
    """x when t is the payload of Some(x-term)"""
    return t.a[0] if isinstance(t, T) and t.op == 'vfld' and t.a[1] == 1 and t.a[2] == 0 else None


# ---- the contracts of the parts: index below the cardinality, decoding inverts encoding -------
LEN = {'IndexSet': 'get_index_of', 'OrderedSet': 'get_index'}


def radix(e):
    """the cardinality an accepted index term is below, or None when it is not an index"""
    o = opt_of(e)
    if is_px(o, 'px_lfix_enc'):
        return px('px_lfix_card', o.a[2])
    if is_px(o, 'px_ldef_enc'):
        return some(px('px_ldef_dcard', o.a[2]))
    for k in LEN:
        if is_px(o, 'ext_%s_%s' % (k, LEN[k])):
            return px('ext_%s_len' % k, o.a[2])
    for k in ('px_set', 'px_set2'):
        if is_px(o, k + '_encode_dense'):
            return some(px(k + '_card', o.a[2]))
    for k in ('px_fenum', 'px_fenum2'):
        if is_px(e, k + '_enc'):
            return px(k + '_card')
    if is_px(e, 'px_key_index') and is_px(opt_of(e.a[2]), 'ext_RodeoReader_get'):
        return px('ext_RodeoReader_len', opt_of(e.a[2]).a[2])
    return None


def contract(t):
    """one step of `decoding inverts encoding` at the head of t, or None"""
    if is_px(t, 'px_lfix_dec', 'px_ldef_dec', 'px_ldyn_dec', 'px_ldyn2_dec'):
        o = opt_of(t.a[3])
        if is_px(o, t.a[1][:-3] + 'enc') and o.a[2] is t.a[2]:
            return o.a[3]
    if is_px(t, 'px_fenum_dec', 'px_fenum2_dec') and is_px(t.a[2], t.a[1][:-3] + 'enc'):
        return t.a[2].a[2]
    if is_px(t, 'px_set_decode', 'px_set2_decode'):
        o = opt_of(t.a[3])
        if is_px(o, t.a[1][:-6] + 'encode') and o.a[2] is t.a[2]:
            return o.a[3]
    if is_px(t, 'px_set_decode_dense', 'px_set2_decode_dense'):
        o = opt_of(t.a[3])
        if is_px(o, t.a[1][:-12] + 'encode_dense') and o.a[2] is t.a[2]:
            return px(t.a[1][:-6], t.a[2], o.a[3])
    # interners and ordered sets
    if t.op == 'val':
        o = opt_of(t.a[0])
        for k, dec in (('IndexSet', 'get_index'), ('OrderedSet', 'index')):
            if is_px(o, 'ext_%s_%s' % (k, dec)):
                e = opt_of(o.a[3])
                if is_px(e, 'ext_%s_%s' % (k, LEN[k])) and e.a[2] is o.a[2]:
                    return e.a[3]
    if is_px(opt_of(t), 'px_key_from') and is_px(t.a[0].a[2], 'px_key_index'):
        return t.a[0].a[2].a[2]
    if is_px(t, 'ext_RodeoReader_resolve'):
        o = opt_of(t.a[3])
        if is_px(o, 'ext_RodeoReader_get') and o.a[2] is t.a[2]:
            return o.a[3]
    if is_px(t, 'ext_ThreadedRodeo_resolve'):
        v = t.a[3]
        if v.op == 'vfld' and v.a[1] == 0 and is_px(v.a[0], 'ext_ThreadedRodeo_try_get_or_intern') and v.a[0].a[2] is t.a[2]:
            return v.a[0].a[3]
    return None


# ---- mixed radix ------------------------------------------------------------------------
def mono_div(m, c):
    """m / c for multisets of factors, or None"""
    m = list(m)
    for f in c:
        if f not in m:
            return None
        m.remove(f)
    return tuple(m)


def mono(t):
    """(coefficient, factors) of a single-monomial polynomial"""
    p = poly_parts(t)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    return c, m


def _mono_term(m):
    p = C(1)
    for f in m:
        p = mul(64, p, f)
    return p


def below(parts, known=None):
    """the product of radices the number with these parts {factors: 1} is shown to be below, reading
    digits from the lowest position; None when it is not a mixed-radix number"""
    if any(c != 1 for c in parts.values()):
        return None
    left = set(parts)
    run = ()
    while left:
        for m in sorted(left, key=len):
            q = mono_div(m, run)
            if q is not None and len(q) == 1 and radix(q[0]) is not None and (known is None or q[0] in known):
                r = mono(radix(q[0]))
                if r is None or r[0] != 1:
                    return None
                run = run + r[1]
                left.discard(m)
                break
        else:
            # a digit may be absent (its set has one member): skip no further
            return None
    return tuple(sorted(run, key=key))


class Reducer:
    """normalises terms built over encoded values; `pos` collects the radices known to be positive"""

    def __init__(self, pos):
        self.pos = set(pos)
        self.memo = {}

    def go(self, t):
        if isinstance(t, tuple):
            return tuple(self.go(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        a = self.go(t.a)
        n = t if all(x is y or x == y for x, y in zip(a, t.a)) else rebuild(t.op, a)
        n = self.head(n)
        self.memo[t] = n
        return n

    def head(self, t):
        for _ in range(50):
            c = contract(t)
            if c is None and t.op == 'op' and t.a[0] in ('div', 'mod'):
                c = self.divmod(t)
            if c is None:
                return t
            t = self.go(c) if c.op != 'op' or c.a[0] in ('px',) else c
        return t

    def divmod(self, t):
        w, x, d = t.a[1:4]
        md = mono(d)
        if md is None or md[0] != 1 or any(f not in self.pos for f in md[1]):
            return None
        c = md[1]
        q, r = {}, {}
        for m, k in poly_parts(x).items():
            e = mono_div(m, c)
            if e is None:
                r[m] = k
            else:
                q[e] = k
        b = below(r)
        if b is None or mono_div(c, b) is None:
            return None
        return mkpoly(64, q) if t.a[0] == 'div' else mkpoly(64, r)


def digits(t):
    """the index atoms a term is made of"""
    return [x for x in subterms(t) if radix(x) is not None]


def positives(t):
    out = set()
    for x in digits(t):
        m = mono(radix(x))
        if m:
            out |= set(m[1])
    return out


# ---- exactness ----------------------------------------------------------------------------
def exact_closure(facts):
    """sums and products shown not to wrap, as {factors: 1}-polynomials"""
    ok = []
    for f, v in facts.items():
        if v == 0 and f.op == 'op' and f.a[0] == 'ovf' and f.a[2] == 'u' and f.a[3] == 64:
            x, y = f.a[4], f.a[5]
            if f.a[1] == 'Mul':
                ok.append((mul(64, x, y), (x, y)))
            elif f.a[1] == 'Add':
                ok.append((add(64, x, y), (x, y)))
    return ok


def simple(t):
    """an atom or a constant: exact by itself"""
    return t.op not in ('poly',)


def exact(t, facts, pos, depth=0):
    """the natural number the polynomial stands for fits in 64 bits"""
    if simple(t):
        return True
    if depth > 12:
        return False
    parts = poly_parts(t)
    for s, (x, y) in exact_closure(facts):
        if s is t:
            if exact(x, facts, pos, depth + 1) and exact(y, facts, pos, depth + 1):
                return True
        else:
            # part of a larger exact number: fewer summands, or factors divided out that are >= 1
            sp = poly_parts(s)
            if all(any(k <= sp[n] and _divides(m, n, pos) for n in sp) for m, k in parts.items()) and len(parts) <= len(sp) and _inject(parts, sp, pos):
                if exact(x, facts, pos, depth + 1) and exact(y, facts, pos, depth + 1):
                    return True
    b = below(parts)
    if b is not None:
        p = _mono_term(b)
        return p is not t and exact(p, facts, pos, depth + 1)
    return False


def _divides(m, n, pos):
    r = mono_div(n, m)
    return r is not None and all(f in pos for f in r)


def _inject(parts, sp, pos):
    used = set()
    for m in parts:
        c = [n for n in sp if n not in used and _divides(m, n, pos)]
        if not c:
            return False
        c.sort(key=lambda n: len(n))
        used.add(c[0])
    return True


# ---- path conditions ------------------------------------------------------------------------
def merge(*fs):
    out = {}
    for f in fs:
        out.update(f)
    return out


def impossible(facts, R, pos, given=()):
    """the facts of a path, rewritten for an accepted value, contradict the contracts of the parts:
    a radix in use is zero, a fixed set has no cardinality, an index or key of a member is unknown;
    or they contradict what is `given` already"""
    for f, v in facts.items():
        g = R.go(f)
        if given and given.get(f, given.get(g, v)) != v:
            return True
        if g.op == 'c':
            if g.a[0] != v:
                return True
            continue
        if v == 0 and g in pos:
            return True
        if g.op == 'op' and g.a[0] == 'eq' and v == 1:
            x, y = g.a[1:3]
            if y.op == 'c' and y.a[0] == 0 and mono(x) and mono(x)[0] == 1 and all(k in pos for k in mono(x)[1]):
                return True
            if x.op == 'c' and x.a[0] == 0 and mono(y) and mono(y)[0] == 1 and all(k in pos for k in mono(y)[1]):
                return True
        if g.op == 'op' and g.a[0] == 'discr' and v == 0:
            o = g.a[1]
            if some(o) in pos or never_none(o):
                return True
            # a set with a cardinality has an index for every group it accepts
            if given and is_px(o, 'px_set_encode_dense', 'px_set2_encode_dense') and given.get(ops.op('discr', px(o.a[1][:-12] + 'card', o.a[2]))) == 1:
                return True
    return False


def never_none(o):
    if is_px(o, 'ext_IndexSet_get_index', 'ext_OrderedSet_index'):
        e = opt_of(o.a[3])
        k = o.a[1].split('_')[1]
        return is_px(e, 'ext_%s_%s' % (k, LEN[k])) and e.a[2] is o.a[2]
    if is_px(o, 'px_ldef_dcard'):
        return True
    return is_px(o, 'px_key_from') and is_px(o.a[2], 'px_key_index')


def option_paths(r):
    """(Some payload, path), None paths, or None when a path is neither"""
    s, n = [], []
    for p in r.ret:
        v = p.val
        if v.op == 'agg' and v.a[0] == 1 and len(v.a) == 2:
            s.append((v.a[1], p))
        elif v.op == 'agg' and v.a[0] == 0 and len(v.a) == 1:
            n.append(p)
        else:
            d = p.facts.get(ops.op('discr', v))
            if d in (None, 1):
                s.append((some(v), p))
            if d in (None, 0):
                n.append(p)
    return s, n


def taken(p):
    """the facts of a path, once its result is known to be Some"""
    return p.facts if p.val.op == 'agg' else merge(p.facts, {ops.op('discr', p.val): 1})
