"""Growable byte buffers (Vec<u8>, BytesMut) and byte sinks.

A buffer is a value: bnew() is empty, app(b, x) is b followed by the bytes x, ovw(b, i, x) is b with
the bytes x written over those at i; a buffer passed in is an arbitrary value. Writing bytes to a
buffer or over a slice is also an event."""
from .prims import *
from .prims import d, pat, strval, fork, some, NONE, proj
from .interp import Stop, Ev

BNEW = ops.op('bnew')
BIG = (1 << 63) - 1


def size(x):
    """number of bytes of a piece"""
    if x.op == 'bytes':
        return C(len(x.a[0]))
    if x.op == 'arr':
        return C(len(x.a))
    if x.op == 'slc':
        return x.a[2]
    if x.op == 'rep':
        return x.a[1]
    if x.op == 'op':
        if x.a[0] == 'vi':
            return ops.op('vlen', x.a[1])
        if x.a[0] == 'le':
            return C(x.a[1] // 8)
        if x.a[0] in ('app', 'ovw', 'bnew'):
            return blen(x)
    return mk('meta', x)


def blen(b):
    n = C0
    while True:
        if b.op == 'op' and b.a[0] == 'app':
            n = add(64, n, size(b.a[2]))
            b = b.a[1]
        elif b.op == 'op' and b.a[0] == 'ovw':
            b = b.a[1]
        elif b is BNEW:
            return n
        elif b.op in ('bytes', 'arr', 'rep', 'slc'):
            return add(64, n, size(b))
        else:
            return add(64, n, ops.op('blen', b))


def nonneg(t):
    """is the polynomial a sum of lengths with positive weights (so a true length, without wrap-around)?"""
    if t.op == 'c':
        return t.a[0] <= BIG
    if t.op == 'poly':
        return all(c < (1 << 20) and len(m) <= 1 and all(is_len(x) for x in m) for m, c in t.a[1])
    return is_len(t)


def is_len(x):
    return x.op == 'meta' or x.op == 'op' and x.a[0] in ('vlen', 'blen')


def least(t):
    if t.op == 'c':
        return t.a[0]
    if t.op == 'poly' and nonneg(t):
        return sum(c * (1 if m and m[0].op == 'op' and m[0].a[0] == 'vlen' else 1 if not m else 0) for m, c in t.a[1])
    if t.op == 'op' and t.a[0] == 'vlen':
        return 1
    return 0


def length(I, st, b):
    n = blen(b)
    if n.op != 'c':
        I.setiv(st, n, least(n), BIG)
    return n


def kind(I, ty):
    """the sort of byte sink of a type: 'buf', 'slice', 'ref' or None"""
    P = I.p
    n = P.name(ty)
    if n in ('std::vec::Vec<u8>', 'bytes::BytesMut', 'alloc::vec::Vec<u8>'):
        return 'buf'
    dd = P.tys[P.core(ty)]
    if dd['t'] == 'ref':
        if P.name(dd['e']) == '[u8]':
            return 'slice'
        return 'ref'
    return None


def bplace(I, cx, i=0):
    e = I.p.pointee(cx.tys[i])
    a, p, _ = I.deref(cx.args[i], e)
    v = I.load(cx.st, a, p, e)
    if v.op == 'agg' or v.op == 'ptr':
        raise Stop('a byte buffer of unknown shape')
    return a, p, v


def isbuf(I, cx, i=0):
    t = cx.tys[i] if i < len(cx.tys) else None
    if t is None:
        return False
    dd = I.p.tys[I.p.core(t)]
    return dd['t'] in ('ref', 'ptr') and kind(I, dd['e']) == 'buf'


def byte_piece(x):
    return bytes_term(bytes([x.a[0] & 255])) if x.op == 'c' else mk('arr', x)


def emit(I, cx, st, loc, x):
    st.emit(Ev('out', 'append', (loc, x), None, cx.site()))


def panic(I, cx, st, msg):
    I.outs.append(('panic', st, msg, cx.site()))


def sink(I, cx, ptr_, ty, x, st=None, upto=False):
    """write the piece x to the sink the pointer ptr_ (of type ty) refers to -> [state]
    upto: io::Write for a slice, which writes no more than fits"""
    st = st or cx.st
    e = I.p.pointee(ty)
    k = kind(I, e)
    a, p, _ = I.deref(ptr_, e)
    if k == 'buf':
        if x.op == 'ptr':
            raise Stop('bytes of unknown origin are appended')
        old = I.load(st, a, p, e)
        if old.op in ('agg', 'ptr'):
            raise Stop('a byte buffer of unknown shape')
        xs = (pieces(x) or [x]) if x.op in ('slc', 'op') else [x]
        for y in xs:
            old = ops.op('app', old, y)
            emit(I, cx, st, ptr(a, p, None), y)
        I.store(st, a, p, old)
        return [st]
    if k == 'slice':
        s = I.load(st, a, p, e)
        al, pre, start, n = I.slice_of(s)
        if n is None:
            raise Stop('a slice of unknown length is written')
        z = size(x)
        out = []
        short = C0 if n is z or nonneg(sub(64, n, z)) else ops.ult(64, n, z)
        for t, bad in fork(I, st, short):
            if bad:
                if upto:
                    raise Stop('a slice may be too short for what is written')
                panic(I, cx, t, 'the slice is too short')
                continue
            old = I.load(t, al, pre, None)
            I.store(t, al, pre, ops.op('ovw', old, start, x))
            I.store(t, a, p, I.mkslice(al, pre, add(64, start, z), sub(64, n, z)))
            t.emit(Ev('out', 'over', (ptr(al, pre, None), x, start), None, cx.site()))
            out.append(t)
        return out
    if k == 'ref':
        v = I.load(st, a, p, e)
        return sink(I, cx, v, e, x, st, upto)
    return None


def done(r, v=UNIT):
    return NotImplemented if r is None else [(s, v) for s in r]


def known_sink(I, cx):
    t = I.p.pointee(cx.tys[0])
    while kind(I, t) == 'ref':
        t = I.p.pointee(t)
    return kind(I, t) in ('buf', 'slice')


# ---- construction
@pat(r'^bytes::BytesMut::(new|with_capacity|zeroed)$|^<bytes::BytesMut as std::default::Default>::default$|^bytes::Bytes::new$')
def bm_new(I, cx):
    if cx.f['d'].endswith('zeroed'):
        raise Stop('zeroed buffer')
    return cx.ret(BNEW)


@pat(r'^<std::vec::Vec<T> as std::default::Default>::default$')
def vec_default(I, cx):
    return cx.ret(BNEW) if cx.dty is not None and kind(I, cx.dty) == 'buf' else NotImplemented


# ---- appending
@pat(r'^bytes::BytesMut::extend_from_slice$|^<.* as bytes::BufMut>::(put|put_slice)$|^bytes::BufMut::(put|put_slice)$|^std::vec::Vec::<T, A>::extend_from_slice$')
def bm_append(I, cx):
    if not known_sink(I, cx):
        return NotImplemented
    return done(sink(I, cx, cx.args[0], cx.tys[0], strval(I, cx.st, cx.args[1])))


@pat(r'^<.* as bytes::BufMut>::put_u8$|^bytes::BufMut::put_u8$|^std::vec::Vec::<T, A>::push$')
def bm_u8(I, cx):
    if not known_sink(I, cx):
        return NotImplemented
    return done(sink(I, cx, cx.args[0], cx.tys[0], byte_piece(cx.args[1])))


@pat(r'^(<.* as )?bytes::BufMut>?::put_(i|u|f)(8|16|32|64)(_le)?$')
def bm_num(I, cx):
    if not known_sink(I, cx):
        return NotImplemented
    m = re.search(r'put_([iuf])(\d+)(_le)?$', cx.f['d'])
    w = int(m.group(2))
    x = cx.args[1]
    le = m.group(3) is not None
    if x.op in ('c', 'f'):
        b = (x.a[0] & ((1 << w) - 1)).to_bytes(w // 8, 'little' if le else 'big')
        x = bytes_term(b)
    else:
        x = ops.op('le' if le else 'be', w, x)
        if not le:
            raise Stop('a big-endian number is written')
    return done(sink(I, cx, cx.args[0], cx.tys[0], x))


@pat(r'^<std::vec::Vec<u8(, A)?> as std::io::Write>::(write_all|write|flush)$|^<std::vec::Vec<u8, A> as std::io::Write>::(write_all|write|flush)$|^<&mut \[u8\] as std::io::Write>::(write_all|write|flush)$')
def vec_io(I, cx):
    n = cx.f['d'].rsplit('::', 1)[-1]
    if n == 'flush':
        return cx.ret(agg(0, (UNIT,)))
    x = strval(I, cx.st, cx.args[1])
    return done(sink(I, cx, cx.args[0], cx.tys[0], x, upto=True), agg(0, (UNIT if n == 'write_all' else size(x),)))


@pat(r'^std::vec::Vec::<T, A>::resize$|^bytes::BytesMut::resize$')
def vec_resize(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    n, v = cx.args[1], cx.args[2]
    have = blen(old)
    if have.op != 'c' or n.op != 'c' or v.op != 'c' or n.a[0] > 4096:
        raise Stop('resize of a buffer of unknown length')
    if n.a[0] < have.a[0]:
        if n is not C0:
            raise Stop('a buffer is shortened')
        I.store(cx.st, a, p, BNEW)
    elif n.a[0] > have.a[0]:
        x = bytes_term(bytes([v.a[0] & 255]) * (n.a[0] - have.a[0]))
        I.store(cx.st, a, p, ops.op('app', old, x))
        emit(I, cx, cx.st, ptr(a, p, None), x)
    return cx.ret(UNIT)


@pat(r'^bytes::BytesMut::(split|clear)$|^std::vec::Vec::<T, A>::clear$')
def bm_split(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    I.store(cx.st, a, p, BNEW)
    return cx.ret(old if cx.f['d'].endswith('split') else UNIT)


@pat(r'^bytes::BytesMut::split_(to|off)$')
def bm_split_at(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    n = cx.args[1]
    if n is blen(old):
        front, back = old, BNEW
    elif n is C0:
        front, back = BNEW, old
    else:
        raise Stop('a buffer is split at a position that is not an end')
    to = cx.f['d'].endswith('_to')
    I.store(cx.st, a, p, back if to else front)
    return cx.ret(front if to else back)


@pat(r'^std::vec::Vec::<T, A>::truncate$|^bytes::BytesMut::truncate$')
def vec_trunc(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    n = cx.args[1]
    b = old
    while blen(b) is not n:
        if not (b.op == 'op' and b.a[0] == 'app'):
            raise Stop('a buffer is shortened to a length that is not a boundary')
        b = b.a[1]
    I.store(cx.st, a, p, b)
    return cx.ret(UNIT)


# ---- queries
@pat(r'^bytes::BytesMut::(len|remaining)$|^std::vec::Vec::<T, A>::len$')
def bm_len(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    return cx.ret(length(I, cx.st, old))


@pat(r'^bytes::BytesMut::is_empty$|^std::vec::Vec::<T, A>::is_empty$')
def bm_empty(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    n = length(I, cx.st, old)
    return cx.ret(FALSE if least(n) else ops.eq(n, C0))


@pat(r'^<std::vec::Vec<T, A> as std::ops::(Deref>::deref|DerefMut>::deref_mut)$|^std::vec::Vec::<T, A>::as_(mut_)?slice$|^<std::vec::Vec<T, A> as std::convert::(AsRef<\[T\]>>::as_ref|AsMut<\[T\]>>::as_mut)$'
     r'|^<bytes::(BytesMut|Bytes) as std::ops::(Deref>::deref|DerefMut>::deref_mut)$|^<bytes::(BytesMut|Bytes) as std::convert::(AsRef<\[u8\]>>::as_ref|AsMut<\[u8\]>>::as_mut)$')
def vec_deref(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    return cx.ret(I.mkslice(a, p, C0, length(I, cx.st, old)))


@pat(r'^bytes::BytesMut::freeze$|^bytes::Bytes::from$|^<bytes::Bytes as std::convert::From<bytes::BytesMut>>::from$')
def bm_freeze(I, cx):
    return cx.ret(cx.args[0])


@pat(r'^bytes::BytesMut::reserve$|^<bytes::(BytesMut|Bytes) as std::ops::Drop>::drop$')
def bm_nop(I, cx):
    return cx.ret(UNIT)


@pat(r'^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$')
def vec_nop(I, cx):
    if isbuf(I, cx):
        return cx.ret(UNIT)
    from .prims import mkvec, vec_of
    e = I.p.pointee(cx.tys[0])
    a, p, _ = I.deref(cx.args[0], e)
    v = I.load(cx.st, a, p, e)
    if v.op != 'agg' or I.p.zst(e):
        return NotImplemented
    q, cap, n = vec_of(I, cx.st, v)
    if cap is not C0 and n is not C0:
        return NotImplemented
    # nothing in it yet: room for what is asked (what the room is beyond that is not observable)
    if not cx.f['d'].endswith('shrink_to_fit'):
        I.store(cx.st, a, p, mkvec(q, add(64, n, cx.args[1]) if cap is C0 else cap if cap is cx.args[1] else add(64, cap, cx.args[1]), n))
    return cx.ret(UNIT)


@pat(r'^<bytes::BytesMut as std::clone::Clone>::clone$|^<bytes::Bytes as std::clone::Clone>::clone$|^<std::vec::Vec<T, A> as std::clone::Clone>::clone$')
def bm_clone(I, cx):
    if not isbuf(I, cx) and 'Vec<' in cx.f['d']:
        return NotImplemented
    return cx.ret(bplace(I, cx)[2])


# ---- comparison of contents
def pieces(x):
    """a byte string as its pieces, adjacent literals merged; None if it cannot be told apart"""
    if x.op == 'slc':
        base, s, n = x.a
        ps = pieces(base)
        if ps is None:
            return [x]
        out, skip = [], s
        for y in ps:
            if skip is C0:
                out.append(y)
                continue
            z = size(y)
            if z is skip:
                skip = C0
            elif y.op == 'bytes' and skip.op == 'c':
                k = min(skip.a[0], len(y.a[0]))
                if k < len(y.a[0]):
                    out.append(bytes_term(y.a[0][k:]))
                skip = C(skip.a[0] - k)
            elif nonneg(sub(64, skip, z)):
                skip = sub(64, skip, z)
            else:
                return [x]
        if skip is not C0:
            return [x]
        if add(64, s, n) is not blen(base):
            cut, left = [], n
            for y in out:
                if left is C0:
                    break
                z = size(y)
                if z is left:
                    cut.append(y)
                    left = C0
                elif y.op == 'bytes' and left.op == 'c' and left.a[0] < len(y.a[0]):
                    cut.append(bytes_term(y.a[0][:left.a[0]]))
                    left = C0
                elif nonneg(sub(64, left, z)):
                    cut.append(y)
                    left = sub(64, left, z)
                else:
                    return [x]
            if left is not C0:
                return [x]
            out = cut
        return merge(out)
    if x.op == 'op' and x.a[0] == 'app':
        a = pieces(x.a[1])
        b = pieces(x.a[2])
        return None if a is None or b is None else merge(a + b)
    if x.op == 'op' and x.a[0] == 'ovw':
        return overwrite(x)
    if x is BNEW:
        return []
    if x.op == 'arr' and all(y.op == 'c' for y in x.a):
        return [bytes_term(bytes(y.a[0] & 255 for y in x.a))]
    if x.op == 'rep' and x.a[0].op == 'c' and x.a[1].op == 'c' and x.a[1].a[0] <= 4096:
        return [bytes_term(bytes([x.a[0].a[0] & 255]) * x.a[1].a[0])]
    return [x]


def split_at(ps, pos):
    """pieces before and from a position -> (before, after) or None; a literal may be cut at a position
    that is not a constant: then the piece stands for an unknown cut of it"""
    out, skip = [], pos
    for i, y in enumerate(ps):
        if skip is C0:
            return out, ps[i:]
        z = size(y)
        if z is skip:
            return out + [y], ps[i + 1:]
        if y.op == 'bytes' and skip.op == 'c':
            k = skip.a[0]
            if k < len(y.a[0]):
                return out + [bytes_term(y.a[0][:k])], [bytes_term(y.a[0][k:])] + ps[i + 1:]
            skip = C(k - len(y.a[0]))
            out.append(y)
            continue
        if y.op == 'bytes':
            # a leading run of one byte: cut at a position known to lie within
            bs = y.a[0]
            k = next((j for j in range(len(bs)) if bs[j] != bs[0]), len(bs))
            if ops.ubound(skip) is not None and ops.ubound(skip) <= k or within(skip, k):
                b = C(bs[0])
                rest = [mk('rep', b, sub(64, C(k), skip))] + ([bytes_term(bs[k:])] if k < len(bs) else [])
                return out + [mk('rep', b, skip)], rest + ps[i + 1:]
        if nonneg(sub(64, skip, z)):
            out.append(y)
            skip = sub(64, skip, z)
            continue
        return None
    return (out, []) if skip is C0 else None


def within(t, n):
    """is t = n - vlen(..) (between n-10 and n-1)?"""
    d = sub(64, C(n), t)
    return d.op == 'op' and d.a[0] == 'vlen' and n >= 10


def overwrite(x):
    """pieces of ovw(b, i, y)"""
    _, b, i, y = x.a
    ps = pieces(b)
    if ps is None:
        return None
    s = split_at(ps, i)
    if s is None:
        return [x]
    t = split_at(s[1], size(y))
    if t is None:
        return [x]
    return merge(s[0] + pieces(y) + t[1])


def merge(ps):
    out = []
    for y in ps:
        if y.op == 'bytes' and not y.a[0]:
            continue
        if y.op == 'rep' and y.a[1] is C0:
            continue
        if y.op == 'bytes' and out and out[-1].op == 'bytes':
            out[-1] = bytes_term(out[-1].a[0] + y.a[0])
        else:
            out.append(y)
    return out


def from_pieces(ps):
    b = BNEW
    for y in ps:
        b = ops.op('app', b, y)
    return b


def starts(h, n):
    """does the piece list h start with n? True, False or None"""
    h, n = list(h), list(n)
    while n:
        if not h:
            return None
        a, b = h[0], n[0]
        if a is b:
            h.pop(0)
            n.pop(0)
        elif a.op == 'bytes' and b.op == 'bytes':
            k = min(len(a.a[0]), len(b.a[0]))
            if a.a[0][:k] != b.a[0][:k]:
                return False
            h[:1] = [bytes_term(a.a[0][k:])] if k < len(a.a[0]) else []
            n[:1] = [bytes_term(b.a[0][k:])] if k < len(b.a[0]) else []
        else:
            return None
    return True


@pat(r'^core::slice::<impl \[T\]>::starts_with$')
def slice_starts(I, cx):
    h, n = strval(I, cx.st, cx.args[0]), strval(I, cx.st, cx.args[1])
    if h.op == 'ptr' or n.op == 'ptr':
        raise Stop('comparison of slices of unknown content')
    hp, np = pieces(h), pieces(n)
    r = starts(hp, np)
    if r is not None:
        return cx.ret(TRUE if r else FALSE)
    return cx.ret(ops.op('startswith', from_pieces(hp), from_pieces(np)))



@pat(r'^<std::vec::Vec<T, A> as std::ops::(Index<I>>::index|IndexMut<I>>::index_mut)$')
def vec_index(I, cx):
    if not isbuf(I, cx):
        return NotImplemented
    a, p, old = bplace(I, cx)
    st = cx.st
    n = length(I, st, old)
    P = I.p
    r = P.name(cx.tys[1])
    v = cx.args[1]
    m = re.match(r'^(?:std|core)::ops::(?:range::)?(Range|RangeFrom|RangeTo|RangeFull)(<usize>)?$', r)
    if r == 'usize':
        lo, hi = v, None
    elif m is None:
        raise Stop('buffer indexed by ' + r)
    else:
        k = m.group(1)
        lo, hi = C0, n
        if k == 'Range':
            lo, hi = proj(v, ('f', 0, 2)), proj(v, ('f', 1, 2))
        elif k == 'RangeFrom':
            lo = v if P.erased(cx.tys[1]) is not None else proj(v, ('f', 0, 1))
        elif k == 'RangeTo':
            hi = v if P.erased(cx.tys[1]) is not None else proj(v, ('f', 0, 1))
    out = []
    if hi is None:
        bad = ops.ult(64, lo, n)
        for t, ok in fork(I, st, TRUE if fits(I, st, add(64, lo, C(1)), n) else bad):
            if ok:
                out.append((t, ptr(a, p + (('i', lo),), None)))
            else:
                panic(I, cx, t, 'index out of bounds')
        return out
    todo = [st]
    for x, y in ((lo, hi), (hi, n)):
        nxt = []
        for s in todo:
            for t, bad in fork(I, s, C0 if fits(I, s, x, y) else ops.ult(64, y, x)):
                if bad:
                    panic(I, cx, t, 'range out of bounds of a buffer')
                else:
                    nxt.append(t)
        todo = nxt
    return [(t, I.mkslice(a, p, lo, sub(64, hi, lo))) for t in todo]


def fits(I, st, x, y):
    """is x <= y known from the shape of the lengths?"""
    if x is y or x is C0:
        return True
    d = sub(64, y, x)
    if nonneg(d):
        return True
    # y - x = (sum of lengths) - const or + vlen ..: bounded below
    if nonneg(y) and I.interval(st, x)[1] <= max(least(y), I.interval(st, y)[0]):
        return True
    return False
