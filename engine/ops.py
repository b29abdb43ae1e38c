"""Normalising constructors for MIR operators."""
from .terms import *
import struct, math

def op(name, *a):
    return mk('op', name, *a)

COMM = {'and', 'or', 'xor', 'fadd', 'fmul'}

def bool_not(x):
    if x.op == 'c':
        return C(1 - x.a[0])
    if x.op == 'op' and x.a[0] == 'not':
        return x.a[1]
    return op('not', x)

def bnot(w, x):
    if x.op == 'c':
        return C(~x.a[0] & M(w))
    return sub(w, C(M(w)), x)

def ult(w, a, b):
    return cmp_lt('ult', w, a, b)

def cmp_lt(k, w, a, b):
    if a.op == 'f' or b.op == 'f':
        a, b = fbits(a), fbits(b)
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        if k == 'ult':
            return C(int(a.a[0] < b.a[0]))
        return C(int(signed(a.a[0], w) < signed(b.a[0], w)))
    if k == 'ult':
        if b is C0:
            return FALSE
        if a.op == 'c' and a.a[0] == M(w):
            return FALSE
        # unify: x < 1  <=>  x == 0
        if b.op == 'c' and b.a[0] == 1:
            return eq(a, C0, w)
        if a is C0:
            return bool_not(eq(b, C0, w))
        hi = ubound(a)
        if b.op == 'c' and hi is not None and hi < b.a[0]:
            return TRUE
        lo = lbound(b)
        if lo and a.op == 'c' and a.a[0] < lo:
            return TRUE
        lo = lbound(a)
        if b.op == 'c' and lo and lo >= b.a[0]:
            return FALSE
    return op(k, w, a, b)

def lbound(t):
    if t.op == 'c':
        return t.a[0]
    if t.op == 'op':
        o = t.a[0]
        if o == 'or':
            return max(lbound(t.a[2]), lbound(t.a[3]))
        if o == 'npow2' or o == 'vlen':
            return 1
    if t.op == 'sym' and t.a[0] == 'nonzero':
        return 1
    return 0

def ubound(t):
    """an unsigned upper bound of a term, or None"""
    if t.op == 'c':
        return t.a[0]
    if t.op == 'op':
        o = t.a[0]
        if o == 'and':
            c = [ubound(x) for x in t.a[2:]]
            c = [x for x in c if x is not None]
            return min(c) if c else None
        if o == 'shr':
            h = ubound(t.a[2])
            if h is None:
                h = M(t.a[1])
            if t.a[3].op == 'c':
                return h >> t.a[3].a[0]
            return h
        if o == 'or':
            c = [ubound(x) for x in t.a[2:]]
            if None in c:
                return None
            return (1 << max(x.bit_length() for x in c)) - 1
        if o == 'zext':
            h = ubound(t.a[3])
            return h if h is not None else M(t.a[1])
        if o == 'trunc':
            h = ubound(t.a[3])
            m = M(t.a[2])
            return min(h, m) if h is not None else m
        if o in ('clz', 'ctz', 'ctpop'):
            return t.a[1]
        if o == 'vlen':
            return 10
        if o in ('ult', 'slt', 'eq', 'flt', 'fle', 'feq', 'not'):
            return 1
        if o == 'mod' and t.a[3].op == 'c' and t.a[3].a[0]:
            return t.a[3].a[0] - 1
    if t.op == 'poly':
        s = 0
        w = t.a[0]
        for m, c in t.a[1]:
            p = c
            for f in m:
                u = ubound(f)
                if u is None:
                    return None
                p *= u
            s += p
        return s if s <= M(w) else None
    return None

def eq(a, b, w=64):
    if a is b:
        return TRUE
    if a.op == 'f' and b.op == 'c' or a.op == 'c' and b.op == 'f':
        a, b = fbits(a), fbits(b)
    if a.op == 'c' and b.op == 'c':
        return C(int(a.a[0] == b.a[0]))
    if a.op == 'agg' and b.op == 'agg':
        if a.a[0] != b.a[0]:
            return FALSE
    if a.op == 'ptr' and b.op == 'ptr':
        r = ptr_eq(a, b)
        if r is not None:
            return r
    if (a.op == 'poly' or b.op == 'poly') and a.op != 'ptr' and b.op != 'ptr':
        d = sub(w, a, b)
        if d.op == 'c':
            return C(int(d.a[0] == 0))
    ua, ub = ubound(a), ubound(b)
    if a.op == 'c' and ub is not None and ub < a.a[0]:
        return FALSE
    if b.op == 'c' and ua is not None and ua < b.a[0]:
        return FALSE
    if b.op == 'c' and lbound(a) > b.a[0] or a.op == 'c' and lbound(b) > a.a[0]:
        return FALSE
    # bool
    if b.op == 'c' and a.op == 'op' and a.a[0] in ('ult', 'slt', 'eq', 'flt', 'fle', 'feq', 'not') :
        return a if b.a[0] == 1 else bool_not(a)
    if a.h > b.h or a.op == 'c':
        a, b = b, a
    if a.op == 'c':
        a, b = b, a
    return op('eq', a, b)

def ptr_eq(a, b):
    if a.a[0] is b.a[0]:
        if a.a[1] == b.a[1]:
            return TRUE
        pa, pb = a.a[1], b.a[1]
        if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa[-1][0] == 'i' and pb[-1][0] == 'i':
            return eq(pa[-1][1], pb[-1][1])
    return None

def shl(w, a, b):
    if b.op == 'c':
        n = b.a[0] & (w - 1)
        return mul(w, a, C(1 << n))
    return op('shl', w, a, b)

def shr(w, a, b):
    if b.op == 'c':
        n = b.a[0] & (w - 1)
        if n == 0:
            return a
        if a.op == 'c':
            return C(a.a[0] >> n)
        if a.op == 'op' and a.a[0] == 'shr' and a.a[1] == w and a.a[3].op == 'c':
            k = a.a[3].a[0] + n
            return C0 if k >= w else op('shr', w, a.a[2], C(k))
        u = ubound(a)
        if u is not None and u >> n == 0:
            return C0
        return op('shr', w, a, C(n))
    return op('shr', w, a, b)

def sar(w, a, b):
    if a.op == 'c' and b.op == 'c':
        return C((signed(a.a[0], w) >> (b.a[0] & (w - 1))) & M(w))
    return op('sar', w, a, b)

def fbits(t):
    return C(t.a[0]) if t.op == 'f' else t

def bit(name, w, a, b):
    a, b = fbits(a), fbits(b)
    if a.op == 'c' and b.op == 'c':
        x, y = a.a[0], b.a[0]
        return C({'and': x & y, 'or': x | y, 'xor': x ^ y}[name])
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        n = b.a[0]
        if name == 'and':
            if n == 0:
                return C0
            if n == M(w):
                return a
            if a.op == 'op' and a.a[0] == 'and' and a.a[3].op == 'c':
                return bit('and', w, a.a[2], C(n & a.a[3].a[0]))
            u = ubound(a)
            if u is not None and (n & (n + 1)) == 0 and u <= n:
                return a
        elif n == 0:
            return a
        if name == 'or' and n == M(w):
            return b
        if name == 'xor' and w == 1 and n == 1:
            return bool_not(a)
        return op(name, w, a, b)
    if a is b:
        return C0 if name == 'xor' else a
    if a.h > b.h:
        a, b = b, a
    return op(name, w, a, b)

def udiv(w, a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        return C(a.a[0] // b.a[0])
    if b.op == 'c' and b.a[0] == 1:
        return a
    return op('div', w, a, b)

def umod(w, a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        return C(a.a[0] % b.a[0])
    if b.op == 'c' and b.a[0] == 1:
        return C0
    return op('mod', w, a, b)

def sdiv(w, a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        x, y = signed(a.a[0], w), signed(b.a[0], w)
        q = abs(x) // abs(y)
        return C((q if (x < 0) == (y < 0) else -q) & M(w))
    return op('sdiv', w, a, b)

def srem(w, a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        x, y = signed(a.a[0], w), signed(b.a[0], w)
        r = abs(x) % abs(y)
        return C((r if x >= 0 else -r) & M(w))
    return op('srem', w, a, b)

def fneg(w, a):
    if a.op == 'f':
        return F(a.a[0] ^ (1 << (w - 1)), w)
    if a.op == 'op' and a.a[0] == 'fneg':
        return a.a[2]
    return op('fneg', w, a)

def fbin(name, w, a, b):
    if name == 'fsub':
        return fbin('fadd', w, a, fneg(w, b))
    if a.op == 'f' and b.op == 'f' and w == 64:
        x, y = fval(a), fval(b)
        try:
            if name == 'fadd':
                return fconst(x + y)
            if name == 'fmul':
                return fconst(x * y)
            if name == 'fdiv' and y != 0:
                return fconst(x / y)
        except OverflowError:
            pass
    if name in COMM and a.h > b.h:
        a, b = b, a
    return op(name, w, a, b)

def fcmp(name, w, a, b):
    if w == 64:
        a, b = (F(x.a[0] & M(64)) if x.op == 'c' else x for x in (a, b))
    if a.op == 'f' and b.op == 'f':
        x, y = fval(a), fval(b)
        return C(int({'flt': x < y, 'fle': x <= y, 'feq': x == y}[name]))
    if name == 'feq' and a.h > b.h:
        a, b = b, a
    return op(name, w, a, b)

def binop(name, k, w, a, b):
    """k: 'u','s','f','b'(bool),'p'(pointer),'c'(char)"""
    n = name.replace('Unchecked', '')
    if k == 'f':
        m = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}
        if n in m:
            return fbin(m[n], w, a, b)
        if n == 'Lt':
            return fcmp('flt', w, a, b)
        if n == 'Le':
            return fcmp('fle', w, a, b)
        if n == 'Gt':
            return fcmp('flt', w, b, a)
        if n == 'Ge':
            return fcmp('fle', w, b, a)
        if n == 'Eq':
            return fcmp('feq', w, a, b)
        if n == 'Ne':
            return bool_not(fcmp('feq', w, a, b))
    if n == 'Add':
        return add(w, a, b)
    if n == 'Sub':
        return sub(w, a, b)
    if n == 'Mul':
        return mul(w, a, b)
    if n == 'Div':
        return sdiv(w, a, b) if k == 's' else udiv(w, a, b)
    if n == 'Rem':
        return srem(w, a, b) if k == 's' else umod(w, a, b)
    if n == 'BitXor':
        return bit('xor', w, a, b)
    if n == 'BitAnd':
        return bit('and', w, a, b)
    if n == 'BitOr':
        return bit('or', w, a, b)
    if n == 'Shl':
        return shl(w, a, b)
    if n == 'Shr':
        return sar(w, a, b) if k == 's' else shr(w, a, b)
    if n == 'Eq':
        return eq(a, b, w)
    if n == 'Ne':
        return bool_not(eq(a, b, w))
    lt = 'slt' if k == 's' else 'ult'
    if n == 'Lt':
        return cmp_lt(lt, w, a, b)
    if n == 'Gt':
        return cmp_lt(lt, w, b, a)
    if n == 'Le':
        return bool_not(cmp_lt(lt, w, b, a))
    if n == 'Ge':
        return bool_not(cmp_lt(lt, w, a, b))
    if n == 'Cmp':
        if a.op == 'c' and b.op == 'c':
            x, y = a.a[0], b.a[0]
            if k == 's':
                x, y = signed(x, w), signed(y, w)
            return agg((x > y) - (x < y) + 1, ())
        return op('cmp', lt, w, a, b)
    return op('bin' + name, k, w, a, b)

def int_cast(fw, fs, tw, x):
    if fw == tw:
        return x
    if tw < fw:
        if x.op == 'c':
            return C(x.a[0] & M(tw))
        if x.op == 'op' and x.a[0] in ('zext', 'sext') and x.a[1] == tw:
            return x.a[3]
        u = ubound(x)
        if x.op == 'op' and x.a[0] in ('zext',) and x.a[1] < tw:
            return op('zext', x.a[1], tw, x.a[3])
        return op('trunc', fw, tw, x)
    if x.op == 'c':
        return C(signed(x.a[0], fw) & M(tw)) if fs else x
    if fs:
        return op('sext', fw, tw, x)
    if x.op == 'op' and x.a[0] == 'zext':
        return op('zext', x.a[1], tw, x.a[3])
    if x.op == 'op' and x.a[0] in ('ult', 'slt', 'eq', 'flt', 'fle', 'feq', 'not'):
        return x
    return op('zext', fw, tw, x)

def reop(a):
    """rebuild an 'op' term after substitution"""
    n = a[0]
    if n in ('ult', 'slt'):
        return cmp_lt(*a)
    if n == 'eq':
        return eq(a[1], a[2])
    if n == 'not':
        return bool_not(a[1])
    if n == 'discr' and a[1].op == 'agg':
        return C(a[1].a[0])
    if n in ('and', 'or', 'xor'):
        return bit(*a)
    if n == 'shl':
        return shl(*a[1:])
    if n == 'shr':
        return shr(*a[1:])
    if n in ('fadd', 'fmul', 'fdiv'):
        return fbin(*a)
    if n in ('flt', 'fle', 'feq'):
        return fcmp(*a)
    if n == 'fneg':
        return fneg(*a[1:])
    if n == 'div':
        return udiv(*a[1:])
    if n == 'mod':
        return umod(*a[1:])
    if n == 'zext':
        return int_cast(a[1], False, a[2], a[3])
    if n == 'sext':
        return int_cast(a[1], True, a[2], a[3])
    if n == 'trunc':
        return int_cast(a[1], False, a[2], a[3])
    return mk('op', *a)
