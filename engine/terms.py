"""Hash-consed value terms: the abstract domain is the Herbrand domain (uninterpreted
operations) with polynomial normal forms for machine integers."""
import struct

class T:
    __slots__ = ('op', 'a', 'h', 'ty')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return key(self) < key(o)

_tab = {}

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        t.h = len(_tab)
        t.ty = None
        _tab[k] = t
    return t

def key(t):
    return t.h


TYPED = []


def hint(t, ty):
    """what is known of the type of a term, within the run of one entry point (terms are shared between runs)"""
    if ty is not None:
        t.ty = ty
        TYPED.append(t)


def forget_hints():
    for t in TYPED:
        t.ty = None
    TYPED.clear()

def C(n):
    return mk('c', n)

def isc(t):
    return t.op == 'c'

UNIT = mk('agg', 0)
TRUE = C(1)
FALSE = C(0)
UNDEF = mk('undef')

def agg(variant, fields):
    fields = tuple(fields)
    if fields:
        f0 = fields[0]
        if f0.op == 'vfld' and f0.a[1] == variant and f0.a[2] == 0 and f0.a[3] == len(fields):
            b = f0.a[0]
            if all(f.op == 'vfld' and f.a[0] is b and f.a[1] == variant and f.a[2] == i for i, f in enumerate(fields)):
                return b
        if f0.op == 'fld' and variant == 0 and f0.a[1] == 0 and f0.a[2] == len(fields):
            b = f0.a[0]
            if all(f.op == 'fld' and f.a[0] is b and f.a[1] == i for i, f in enumerate(fields)):
                return b
    return mk('agg', variant, *fields)

def is_agg(t):
    return t.op == 'agg'

# ---- pointers -------------------------------------------------------------------------
def ptr(alloc, path, meta=None):
    if alloc.op == 'deref':
        if path == () and meta is None:
            return alloc.a[0]
        if meta is not None and meta.op == 'meta' and meta.a[0] is alloc.a[0] and len(path) == 1 and path[0] == ('i', C0):
            return alloc.a[0]
    return mk('ptr', alloc, path, meta)

C0 = C(0)

# ---- integers: polynomials modulo 2^w ----------------------------------------------------
def M(w):
    return (1 << w) - 1

def signed(n, w):
    return n - (1 << w) if n >> (w - 1) else n

def poly_parts(t):
    """dict monomial(tuple of terms)->coef"""
    if t.op == 'c':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a[1])
    return {(t,): 1}

def mkpoly(w, d):
    d = {m: c & M(w) for m, c in d.items() if c & M(w)}
    if not d:
        return C0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(x.h for x in mc[0]))))
    return mk('poly', w, items)

def add(w, a, b):
    if a.op == 'c' and b.op == 'c':
        return C((a.a[0] + b.a[0]) & M(w))
    if a is C0:
        return b
    if b is C0:
        return a
    d = poly_parts(a)
    for m, c in poly_parts(b).items():
        d[m] = d.get(m, 0) + c
    return mkpoly(w, d)

def neg(w, a):
    return mkpoly(w, {m: -c for m, c in poly_parts(a).items()})

def sub(w, a, b):
    if b is C0:
        return a
    if a is b:
        return C0
    return add(w, a, neg(w, b))

def mul(w, a, b):
    if a.op == 'c' and b.op == 'c':
        return C((a.a[0] * b.a[0]) & M(w))
    pa, pb = poly_parts(a), poly_parts(b)
    if len(pa) * len(pb) > 200:
        return mk('op', 'mul', w, a, b)
    d = {}
    for m, c in pa.items():
        for n, e in pb.items():
            k = tuple(sorted(m + n, key=key))
            d[k] = d.get(k, 0) + c * e
    return mkpoly(w, d)

# ---- floats ------------------------------------------------------------------------------
def F(bits, w=64):
    return mk('f', bits, w)

def fval(t):
    return struct.unpack('<d', struct.pack('<Q', t.a[0]))[0] if t.a[1] == 64 else struct.unpack('<f', struct.pack('<I', t.a[0]))[0]

def fconst(x, w=64):
    return F(struct.unpack('<Q', struct.pack('<d', x))[0], 64) if w == 64 else F(struct.unpack('<I', struct.pack('<f', x))[0], 32)

# ---- byte strings ------------------------------------------------------------------------
def bytes_term(b):
    return mk('bytes', bytes(b))

def subterms(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen

def contains(t, pred):
    return any(pred(x) for x in subterms(t))

_submemo = {}
def subst(t, m):
    """replace subterms by the mapping m (term -> term), rebuilding normal forms"""
    memo = {}
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        na = go(x.a)
        if all(p is q or p == q for p, q in zip(na, x.a)):
            r = x
        else:
            r = rebuild(x.op, na)
            if r.ty is None:
                hint(r, x.ty)
        memo[x] = r
        return r
    return go(t)

def rebuild(op, a):
    if op == 'poly':
        w = a[0]
        acc = C0
        for m, c in a[1]:
            p = C(c)
            for f in m:
                p = mul(w, p, f)
            acc = add(w, acc, p)
        return acc
    if op == 'ptr':
        return ptr(*a)
    if op == 'agg':
        return agg(a[0], a[1:])
    if op == 'meta' and a[0].op == 'ptr':
        return a[0].a[2] if a[0].a[2] is not None else mk(op, *a)
    if op == 'op':
        from . import ops
        return ops.reop(a)
    if op in ('fld', 'vfld', 'sel'):
        from . import interp
        if op == 'fld':
            return interp.proj(a[0], ('f', a[1], a[2]))
        if op == 'vfld':
            return interp.proj(a[0], ('v', a[1], a[2], a[3]))
        return interp.sel(a[0], a[1])
    return mk(op, *a)

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return repr(t) if not isinstance(t, str) else t
    if d > 14:
        return '…'
    o, a = t.op, t.a
    if o == 'c':
        n = a[0]
        return str(n) if n < 1 << 63 else str(n - (1 << 64)) if n >> 64 == 0 else str(n)
    if o == 'f':
        return repr(fval(t)) + 'f'
    if o == 'agg':
        return '%s{%s}' % ('' if a[0] == 0 else '#%d' % a[0], ','.join(show(x, d + 1) for x in a[1:]))
    if o == 'ptr':
        p = ''.join('.%d' % e[1] if e[0] == 'f' else '[%s]' % show(e[1], d + 1) if e[0] == 'i' else '.' + '/'.join(show(y, d + 1) for y in e) for e in a[1])
        return '&%s%s%s' % (show(a[0], d + 1), p, '' if a[2] is None else ';%s' % show(a[2], d + 1))
    if o == 'poly':
        s = []
        for m, c in a[1]:
            cs = signed(c, a[0])
            s.append((('%d*' % cs if cs != 1 or not m else '') if m else str(cs)) + '*'.join(show(x, d + 1) for x in m))
        return '(' + '+'.join(s) + ')'
    if o == 'bytes':
        return repr(a[0])
    if o == 'sym':
        return '$' + '.'.join(str(x) for x in a)
    if o == 'deref':
        return '*' + show(a[0], d + 1)
    if o == 'fld':
        return '%s.%d' % (show(a[0], d + 1), a[1])
    if o == 'vfld':
        return '%s@%d.%d' % (show(a[0], d + 1), a[1], a[2])
    if o == 'op':
        return '%s(%s)' % (a[0], ','.join(show(x, d + 1) for x in a[1:]))
    if o == 'loc':
        return 'loc' + str(a[1]) + '#' + str(a[0].h)
    if o == 'sel':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    return '%s(%s)' % (o, ','.join(show(x, d + 1) for x in a))
