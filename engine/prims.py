"""Transfer functions for the trusted primitives: compiler intrinsics, the lock, the once cell,
the hash table, the clock, formatting and the opaque parts of the probe crate."""
import re
from .terms import *
from . import ops
from .interp import *
from .interp import Stop, Ev, proj, setp, sel, shift, arr, UNITPTR, UNITLOC, Ctx

DEFS = {}
PATS = []
INTR = {}

NONE = agg(0, ())


def some(v):
    return agg(1, (v,))


def d(*names):
    def g(f):
        for n in names:
            DEFS[n] = f
        return f
    return g


def pat(rx):
    def g(f):
        PATS.append((re.compile(rx), f))
        return f
    return g


def intr(*names):
    def g(f):
        for n in names:
            INTR[n] = f
        return f
    return g


def lookup(f):
    if f['kind'] == 'intrinsic' or f.get('intr'):
        r = INTR.get(f.get('intr') or f['d'].rsplit('::', 1)[-1])
        if r is not None:
            return r
    r = DEFS.get(f['d'])
    if r is not None:
        return r
    if 'blocks' not in f and '::px_' in f['d'] or f['d'].startswith('px_'):
        return px
    for rx, g in PATS:
        if rx.match(f['d']):
            return g
    return None


def exclusive(I, a):
    return a.op in ('loc', 'heap', 'clo', 'const', 'unit')


def option(cx, t, mkval):
    """fork an opaque Option-like value"""


def fork(I, st, t):
    """-> [(state, 0/1)] for a boolean/integer term"""
    k = I.known(st, t)
    if k is not None:
        return [(st, k)]
    s2 = st.copy()
    out = []
    if I.assume(st, t, 1):
        out.append((st, 1))
    if I.assume(s2, t, 0):
        out.append((s2, 0))
    return out


def content(I, st, v, ty, depth=0):
    """the value an argument stands for: references are replaced by what they refer to"""
    P = I.p
    if ty is None:
        return v
    dd = P.tys[P.core(ty)]
    if dd['t'] not in ('ref', 'ptr') or v.op == 'undef':
        return v
    e = dd['e']
    if P.zst(e):
        return UNIT
    k, el = P.unsized_tail(e)
    if k == 'slice':
        return strval(I, st, v)
    if k == 'dyn':
        return v
    a, p, m = I.deref(v, e)
    return I.load(st, a, p, e)


def strval(I, st, v):
    if v.op != 'ptr':
        return v
    al, pre, start, n = I.slice_of(v)
    b = I.base(st, al)
    for e in pre:
        b = proj(b, e)
    if n is None:
        return v
    if n is C0:
        return bytes_term(b'')
    if b.op == 'win':
        b, start = b.a[0], add(64, b.a[1], start)
    if n.op == 'c' and start.op == 'c' and n.a[0] <= 4096 and b.op in ('bytes', 'arr', 'rep'):
        xs = [sel(b, C(start.a[0] + i)) for i in range(n.a[0])]
        if all(x.op == 'c' for x in xs):
            return bytes_term(bytes(x.a[0] & 255 for x in xs))
        return mk('arr', *xs)
    if b.op == 'cat' and start is C0:
        return b
    if b.op == 'op' and b.a[0] == 'le' and start is C0 and n is C(b.a[1] // 8):
        return b
    if b.op == 'val' and b.a[0].op != 'ptr' and start is C0 and n.op == 'meta' and n.a[0] is b.a[0]:
        return b.a[0]
    return mk('slc', b, start, n)


# ---------------------------------------------------------------- opaque parts
def px(I, cx, name=None):
    P = I.p
    name = name or cx.f['d'].rsplit('::', 1)[-1]
    mut = False
    vals = []
    for v, t in zip(cx.args, cx.tys):
        dd = P.tys[P.core(t)] if t is not None else None
        if dd is not None and dd['t'] == 'ref' and dd['m']:
            mut = True
            vals.append(v)
        else:
            vals.append(content(I, cx.st, v, t))
    if not mut:
        if cx.dty is None or P.zst(cx.dty):
            r = UNIT
        else:
            r = ops.op('px', name, *vals)
        return cx.ret(r)
    r = UNIT if cx.dty is None or P.zst(cx.dty) else cx.st.fresh()
    cx.st.emit(Ev('px', name, vals, r, cx.site()))
    return cx.ret(r)


@pat(r'^(indexmap::IndexSet|phf::OrderedSet|lasso::RodeoReader|lasso::ThreadedRodeo)::<.*>::\w+$')
def third_party_set(I, cx):
    """an operation of a third-party set: known by its documented contract only"""
    t = re.match(r'^\w+::(\w+)::', cx.f['d']).group(1)
    m = cx.f['d'].rsplit('::', 1)[-1]
    if (t, m) == ('IndexSet', 'get_full'):
        # the index found by get_index_of, with the member at that index
        s, v = (content(I, cx.st, x, y) for x, y in zip(cx.args, cx.tys))
        o = ops.op('px', 'ext_IndexSet_get_index_of', s, v)
        i = mk('vfld', o, 1, 0, 1)
        r = agg(1, (agg(0, (i, mk('vfld', ops.op('px', 'ext_IndexSet_get_index', s, i), 1, 0, 1))),))
        return [(st, r if k else agg(0, ())) for st, k in fork(I, cx.st, ops.op('discr', o))]
    return px(I, cx, 'ext_%s_%s' % (t, m))


@pat(r'^<indexmap::IndexSet<.*> as (core|std)::ops::Index<usize>>::index$|^indexmap::set::<impl (core|std)::ops::Index<usize> for indexmap::IndexSet<.*>>::index$')
def third_party_index(I, cx):
    s, i = content(I, cx.st, cx.args[0], cx.tys[0]), cx.args[1]
    o = ops.op('px', 'ext_IndexSet_get_index', s, i)
    out = []
    for st, k in fork(I, cx.st, ops.op('discr', o)):
        if k:
            out.append((st, mk('vfld', o, 1, 0, 1)))
        else:
            I.outs.append(('panic', st, 'index out of bounds of the set', cx.site()))
    return out


@pat(r'^procfs::(process::Process::\w+|boot_time_secs|[\w:]*::boot_time_secs)$|^tokio::runtime::(RuntimeMetrics|Handle)::\w+$|^(libc|rustix|std|core)::([\w]+::)*(sysconf|getpid)$')
def system_reading(I, cx):
    """a reading of the operating system or of the tokio runtime: an arbitrary value"""
    return px(I, cx, 'sys_' + cx.f['d'].rsplit('::', 1)[-1])


@d('std::process::id')
def process_id(I, cx):
    return px(I, cx, 'sys_getpid')


@pat(r'^procfs::(ticks_per_second|page_size)$')
def system_constant(I, cx):
    return cx.ret(ops.op('px', 'sys_sysconf', C(2 if cx.f['d'].endswith('second') else 30)))


# ---------------------------------------------------------------- panics
@d('core::panicking::panic', 'std::rt::panic_fmt', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind',
   'core::panicking::panic_nounwind_fmt', 'core::panicking::panic_str_2015', 'core::panicking::panic_display', 'std::rt::panic_display',
   'core::panicking::panic_explicit', 'core::panicking::panic_nounwind_nobacktrace', 'core::panicking::unreachable_display',
   'std::option::expect_failed', 'std::option::unwrap_failed', 'std::result::unwrap_failed', 'core::slice::index::slice_index_fail',
   'core::panicking::assert_failed_inner', 'core::panicking::assert_failed', 'std::alloc::handle_alloc_error', 'core::panicking::panic_bounds_check',
   'std::process::abort', 'alloc::raw_vec::handle_error', 'std::cell::panic_already_borrowed', 'core::panicking::const_panic_fmt', 'core::panicking::panic_cannot_unwind')
def panic_(I, cx):
    msg = cx.f['d'].rsplit('::', 1)[-1]
    if cx.args and cx.tys and cx.tys[0] is not None:
        try:
            c = content(I, cx.st, cx.args[0], cx.tys[0])
            if c.op == 'bytes':
                msg = c.a[0].decode('utf8', 'replace')
        except Stop:
            pass
    I.outs.append(('panic', cx.st, msg, cx.site()))
    return []


@pat(r'^core::panicking::|^std::panicking::|.*::slice_(start|end|index)_\w*fail\w*$|.*::do_panic.*|^core::slice::index::slice_|.*handle_error$|.*len_mismatch_fail.*')
def panic_p(I, cx):
    return panic_(I, cx)


# ---------------------------------------------------------------- intrinsics
def ordering(f):
    return re.findall(r'AtomicOrdering::(\w+)', f['n'])


def elem_ty(I, cx, i=0):
    return I.p.pointee(cx.tys[i])


def noop(I, cx):
    return cx.ret(UNIT)


for n in ('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume', 'cold_path', 'atomic_fence', 'atomic_singlethreadfence', 'forget'):
    INTR[n] = noop


@intr('atomic_load')
def a_load(I, cx):
    e = elem_ty(I, cx)
    a, p, m = I.deref(cx.args[0], e)
    if exclusive(I, a):
        return cx.ret(I.load(cx.st, a, p, e))
    r = cx.st.fresh()
    cx.st.emit(Ev('atomic', 'load', (cx.args[0],), r, cx.site(), ordering(cx.f)))
    return cx.ret(r)


@intr('atomic_store')
def a_store(I, cx):
    e = elem_ty(I, cx)
    a, p, m = I.deref(cx.args[0], e)
    I.store(cx.st, a, p, cx.args[1])
    if not exclusive(I, a):
        cx.st.emit(Ev('atomic', 'store', (cx.args[0], cx.args[1]), None, cx.site(), ordering(cx.f)))
    return cx.ret(UNIT)


def a_rmw(name, fn):
    def g(I, cx):
        e = elem_ty(I, cx)
        a, p, m = I.deref(cx.args[0], e)
        k, w = I.p.int_info(e)
        if exclusive(I, a):
            old = I.load(cx.st, a, p, e)
            I.store(cx.st, a, p, fn(w, old, cx.args[1]))
            return cx.ret(old)
        r = cx.st.fresh()
        cx.st.emit(Ev('atomic', name, (cx.args[0], cx.args[1]), r, cx.site(), ordering(cx.f)))
        I.store(cx.st, a, p, mk('hv', cx.st.scope, cx.st.n, 0))
        return cx.ret(r)
    INTR['atomic_' + name] = g


a_rmw('xadd', lambda w, a, b: add(w, a, b))
a_rmw('xsub', lambda w, a, b: sub(w, a, b))
a_rmw('xchg', lambda w, a, b: b)
a_rmw('and', lambda w, a, b: ops.bit('and', w, a, b))
a_rmw('or', lambda w, a, b: ops.bit('or', w, a, b))
a_rmw('xor', lambda w, a, b: ops.bit('xor', w, a, b))
for _n in ('nand', 'max', 'min', 'umax', 'umin'):
    a_rmw(_n, lambda w, a, b, _n=_n: ops.op('at' + _n, w, a, b))


@intr('atomic_cxchg', 'atomic_cxchgweak')
def a_cxchg(I, cx):
    e = elem_ty(I, cx)
    a, p, m = I.deref(cx.args[0], e)
    weak = cx.f['intr'].endswith('weak') if cx.f.get('intr') else cx.f['d'].endswith('weak')
    if exclusive(I, a) and not weak:
        old = I.load(cx.st, a, p, e)
        out = []
        for s, k in fork(I, cx.st, ops.eq(old, cx.args[1])):
            if k:
                I.store(s, a, p, cx.args[2])
            out.append((s, agg(0, (old, C(k)))))
        return out
    st = cx.st
    old = st.fresh()
    ok = mk('casok', old)
    st.emit(Ev('atomic', 'cas' + ('weak' if weak else ''), (cx.args[0], cx.args[1], cx.args[2]), old, cx.site(), ordering(cx.f)))
    return cx.ret(agg(0, (old, ok)))


def un(name, fn):
    def g(I, cx):
        k, w = I.p.int_info(cx.tys[0])
        x = cx.args[0]
        if x.op == 'c':
            return cx.ret(C(fn(x.a[0], w)))
        return cx.ret(ops.op(name, w, x))
    return g


INTR['ctlz'] = INTR['ctlz_nonzero'] = un('clz', lambda x, w: w - x.bit_length())
INTR['cttz'] = INTR['cttz_nonzero'] = un('ctz', lambda x, w: (x & -x).bit_length() - 1 if x else w)
INTR['ctpop'] = un('ctpop', lambda x, w: bin(x).count('1'))
INTR['bswap'] = un('bswap', lambda x, w: int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'))
INTR['bitreverse'] = un('bitrev', lambda x, w: int(bin(x)[2:].zfill(w)[::-1], 2))


@intr('size_of_val')
def size_of_val(I, cx):
    e = I.p.pointee(cx.tys[0])
    s = I.p.tys[e]['s']
    if s >= 0:
        return cx.ret(C(s))
    k, el = I.p.unsized_tail(e)
    if k == 'slice' and I.p.tys[I.p.core(e)]['t'] in ('str', 'slice'):
        return cx.ret(mul(64, I.slice_len(cx.args[0]), C(I.p.tys[el]['s'] if el is not None else 1)))
    return cx.ret(ops.op('size_of_val', cx.args[0]))


@intr('align_of_val')
def align_of_val(I, cx):
    return cx.ret(ops.op('align_of_val', C(I.p.pointee(cx.tys[0]))))


@intr('ptr_offset_from', 'ptr_offset_from_unsigned')
def ptr_off(I, cx):
    a, b = cx.args[0], cx.args[1]
    e = I.p.pointee(cx.tys[0])
    if a is b:
        return cx.ret(C0)
    a1, p1, _ = I.deref(a, e)
    a2, p2, _ = I.deref(b, e)
    i1, i2 = last_index(p1), last_index(p2)
    if a1 is a2 and i1[0] == i2[0]:
        return cx.ret(sub(64, i1[1], i2[1]))
    return cx.ret(ops.op('ptrdiff', a, b))


def last_index(p):
    if p and p[-1][0] == 'i':
        return p[:-1], p[-1][1]
    return p, C0


@intr('arith_offset', 'offset')
def arith_offset(I, cx):
    return cx.ret(I.ptr_add(cx.args[0], cx.tys[0], cx.args[1]))


@intr('saturating_sub')
def sat_sub(I, cx):
    k, w = I.p.int_info(cx.tys[0])
    a, b = cx.args
    if k == 'u':
        out = []
        for s, lt in fork(I, cx.st, ops.ult(w, a, b)):
            out.append((s, C0 if lt else sub(w, a, b)))
        return out
    return cx.ret(ops.op('ssatsub', w, a, b))


@intr('saturating_add')
def sat_add(I, cx):
    k, w = I.p.int_info(cx.tys[0])
    a, b = cx.args
    if a.op == 'c' and b.op == 'c' and k == 'u':
        return cx.ret(C(min(M(w), a.a[0] + b.a[0])))
    return cx.ret(ops.op('satadd', k, w, a, b))


@intr('copy', 'copy_nonoverlapping')
def copy_(I, cx):
    I.copy(cx.st, cx.args[0], cx.args[1], cx.args[2], I.p.pointee(cx.tys[0]))
    return cx.ret(UNIT)


@intr('write_bytes')
def write_bytes(I, cx):
    e = I.p.pointee(cx.tys[0])
    if I.p.zst(e):
        return cx.ret(UNIT)
    a, p, _ = I.deref(cx.args[0], e)
    if cx.args[1] is C0 and cx.args[2] is C(1):
        I.store(cx.st, a, p, mk('zeroed', C(e)))
    else:
        I.store(cx.st, a, p, mk('hv', cx.st.scope, cx.st.n, 9))
        cx.st.n += 1
    return cx.ret(UNIT)


def bytes_at(I, st, p, e, n):
    """the n bytes behind a thin pointer, as a value"""
    a, pre, _ = I.deref(p, e)
    pre, start = last_index(pre)
    b = I.base(st, a)
    for x in pre:
        b = proj(b, x)
    if n.op == 'c' and start.op == 'c' and n.a[0] <= 4096 and b.op in ('bytes', 'arr', 'rep'):
        xs = [sel(b, C(start.a[0] + i)) for i in range(n.a[0])]
        if all(x.op == 'c' for x in xs):
            return bytes_term(bytes(x.a[0] & 255 for x in xs))
    return mk('slc', b, start, n)


@intr('compare_bytes')
def compare_bytes(I, cx):
    if cx.args[2] is C0:
        return cx.ret(C0)
    e = I.p.pointee(cx.tys[0])
    x, y = [bytes_at(I, cx.st, p, e, cx.args[2]) for p in cx.args[:2]]
    if x is y:
        return cx.ret(C0)
    if x.op == y.op == 'bytes':
        return cx.ret(C(((x.a[0] > y.a[0]) - (x.a[0] < y.a[0])) & M(32)))
    return cx.ret(ops.op('memcmp', x, y))


@intr('black_box')
def black_box(I, cx):
    return cx.ret(cx.args[0])


@intr('three_way_compare')
def twc(I, cx):
    k, w = I.p.int_info(cx.tys[0])
    return cx.ret(ops.binop('Cmp', k, w, cx.args[0], cx.args[1]))


@intr('rotate_left')
def rotl(I, cx):
    k, w = I.p.int_info(cx.tys[0])
    a, b = cx.args
    if a.op == 'c' and b.op == 'c':
        n = b.a[0] % w
        return cx.ret(C(((a.a[0] << n) | (a.a[0] >> (w - n))) & M(w)))
    return cx.ret(ops.op('rotl', w, a, b))


@intr('const_eval_select')
def ces(I, cx):
    return NotImplemented


@d('std::f64::<impl f64>::powi', 'core::f64::<impl f64>::powi')
def powi(I, cx):
    return cx.ret(ops.op('powi', cx.args[0], cx.args[1]))


@intr('select_unpredictable')
def selu(I, cx):
    c, a, b = cx.args
    if a is b:
        return cx.ret(a)
    return [(s, a if k else b) for s, k in fork(I, cx.st, c)]


@d('core::num::<impl usize>::next_power_of_two')
def npow2(I, cx):
    x = cx.args[0]
    if x.op == 'c':
        n = x.a[0]
        return cx.ret(C(1 << (n - 1).bit_length() if n > 1 else 1))
    return cx.ret(ops.op('npow2', 64, x))


# ---------------------------------------------------------------- time, environment
@d('std::time::Instant::now')
def now(I, cx):
    r = cx.st.fresh()
    cx.st.emit(Ev('time', 'now', (), r, cx.site()))
    return cx.ret(r)


@d('std::time::Instant::elapsed')
def elapsed(I, cx):
    st = cx.st
    r = st.fresh()
    st.emit(Ev('time', 'elapsed', (content(I, st, cx.args[0], cx.tys[0]),), r, cx.site()))
    return cx.ret(r)


@d('std::time::Instant::duration_since', '<std::time::Instant as std::ops::Sub>::sub', 'std::time::Instant::saturating_duration_since')
def dsince(I, cx):
    return cx.ret(ops.op('tsub', cx.args[0], cx.args[1]))


@d('std::time::Duration::as_secs_f64')
def secs(I, cx):
    return cx.ret(ops.op('secs', content(I, cx.st, cx.args[0], cx.tys[0])))


@d('std::thread::available_parallelism')
def avail(I, cx):
    return cx.ret(mk('sym', 'available_parallelism'))


# ---------------------------------------------------------------- lock
RAW = '<parking_lot::raw_rwlock::RawRwLock as lock_api::rwlock::'


def lockdata(p):
    """path of the data guarded by the raw lock at path p"""
    if p and p[-1][0] == 'f':
        e = p[-1]
        return p[:-1] + (('f', 1 - e[1], 2),) if e[2] == 2 else None
    return None


def acquire(mode, tryit):
    def g(I, cx):
        st = cx.st
        e = I.p.pointee(cx.tys[0])
        a, p, _ = I.deref(cx.args[0], e)
        out = []
        if tryit:
            r = st.fresh()
            s2 = st.copy()
            if I.assume(s2, r, 0):
                s2.emit(Ev('lock', 'fail_' + mode, (cx.args[0],), FALSE, cx.site()))
                out.append((s2, FALSE))
            I.assume(st, r, 1)
        x = None
        if not exclusive(I, a):
            dp = lockdata(p)
            if dp is None:
                raise Stop('lock without data')
            x = (ptr(a, dp, None), mk('hv', st.scope, st.n, ptr(a, dp, None)))
            I.store(st, a, dp, x[1])
            st.n += 1
        st.emit(Ev('lock', 'lock_' + mode, (cx.args[0],), None, cx.site(), x))
        out.append((st, TRUE if tryit else UNIT))
        return out
    return g


for _m, _q in (('shared', 'RawRwLock>'), ('exclusive', 'RawRwLock>')):
    DEFS[RAW + _q + '::lock_' + _m] = acquire(_m, False)
    DEFS[RAW + _q + '::try_lock_' + _m] = acquire(_m, True)
DEFS[RAW + 'RawRwLockRecursive>::lock_shared_recursive'] = acquire('shared', False)
DEFS[RAW + 'RawRwLockRecursive>::try_lock_shared_recursive'] = acquire('shared', True)
DEFS[RAW + 'RawRwLockUpgrade>::lock_upgradable'] = acquire('upgradable', False)


def release(name):
    def g(I, cx):
        cx.st.emit(Ev('lock', name, (cx.args[0],), None, cx.site()))
        return cx.ret(UNIT)
    return g


for _q, _n in (('RawRwLock', 'unlock_shared'), ('RawRwLock', 'unlock_exclusive'), ('RawRwLockFair', 'unlock_shared_fair'),
               ('RawRwLockFair', 'unlock_exclusive_fair'), ('RawRwLockDowngrade', 'downgrade'), ('RawRwLockUpgrade', 'unlock_upgradable')):
    DEFS['%s%s>::%s' % (RAW, _q, _n)] = release(_n.replace('_fair', ''))


@d(RAW + 'RawRwLockUpgrade>::upgrade')
def upgrade(I, cx):
    cx.st.emit(Ev('lock', 'unlock_upgradable', (cx.args[0],), None, cx.site()))
    return acquire('exclusive', False)(I, cx)


# ---------------------------------------------------------------- std's reader-writer lock
def std_lock(mode):
    def g(I, cx):
        e = I.p.pointee(cx.tys[0])
        d = I.p.tys[e]
        fs = [f[0] for f in d['v'][0]['f']]
        a, p, _ = I.deref(cx.args[0], e)
        place = lambda n: ptr(a, p + (('f', fs.index(n), len(fs)),), None)
        if mode == 'read':
            guard = agg(0, (place('data'), place('inner')))
        else:
            guard = agg(0, (cx.args[0], C0))
        cx.st.emit(Ev('lock', 'std_' + mode, (cx.args[0],), None, cx.site()))
        r = cx.st.fresh()
        return [(s, agg(k, (guard,))) for s, k in fork(I, cx.st, r)]
    return g


def std_unlock(mode):
    def g(I, cx):
        cx.st.emit(Ev('lock', 'std_un' + mode, (cx.args[0],), None, cx.site()))
        return cx.ret(UNIT)
    return g


for _m, _g in (('read', 'RwLockReadGuard'), ('write', 'RwLockWriteGuard')):
    DEFS['std::sync::RwLock::<T>::' + _m] = std_lock(_m)
    DEFS["<std::sync::%s<'_, T> as std::ops::Drop>::drop" % _g] = std_unlock(_m)


@pat(r"^<std::iter::(Filter<I, P>|FilterMap<I, F>) as std::iter::Iterator>::next$")
def filter_next(I, cx):
    """`next` of a filtering adapter called at the start of each iteration of a loop: an element that is rejected makes
    one iteration of that loop that does nothing else"""
    if not I.can_skip(cx.fr, cx.b):
        return NotImplemented
    saved, I.skips = I.skips, []
    rs = I.inline(cx.st, cx.fr, cx.b, cx.fid, cx.args, cx.tys, cx.sp)
    skips, I.skips = I.skips, saved
    return rs + [(s, SKIP) for s in skips]


@d('std::hint::spin_loop', 'core::hint::spin_loop', 'std::thread::yield_now')
def pause(I, cx):
    return cx.ret(UNIT)


@pat(r"^std::fmt::Arguments::<'a>::as_(statically_known_)?str$")
def known_str(I, cx):
    """only a shortcut around the general formatting of the same text"""
    return cx.ret(NONE)


@pat(r'^core::num::<impl u(8|16|32|64|size)>::ilog2$')
def ilog2(I, cx):
    """of a power of two: its trailing zeros; of a constant: known"""
    x = cx.args[0]
    if x.op == 'c' and x.a[0]:
        return cx.ret(C(x.a[0].bit_length() - 1))
    if x.op == 'op' and x.a[0] == 'npow2':
        return cx.ret(ops.op('ctz', 64, x))
    return NotImplemented


@d('alloc::raw_vec::RawVecInner::<A>::with_capacity_in')
def rawvec_cap(I, cx):
    """storage for `cap` elements, all of it new (an allocation that fails ends the program)"""
    return cx.ret(agg(0, (ptr(heap(cx.st), (('i', C0),), None), cx.args[0], cx.args[1])))


@d('alloc::raw_vec::RawVec::<T, A>::grow_one')
def grow_one(I, cx):
    """more room: the elements stay as they are"""
    return cx.ret(UNIT)


# ---------------------------------------------------------------- once cell
OL = 'std::sync::OnceLock::<T>::'


def once_place(I, cx, i=0):
    e = I.p.pointee(cx.tys[i])
    a, p, _ = I.deref(cx.args[i], e)
    v = I.base(cx.st, a)
    for x in p:
        v = proj(v, x)
    return a, p, v


def once_fork(I, st, v):
    if v.op == 'agg':
        return [(st, v.a[0])]
    return fork(I, st, ops.op('discr', v))


@d(OL + 'new', 'std::cell::OnceCell::<T>::new', '<std::sync::OnceLock<T> as std::default::Default>::default')
def once_new(I, cx):
    return cx.ret(NONE)


@d('<std::sync::OnceLock<T> as std::convert::From<T>>::from')
def once_from(I, cx):
    return cx.ret(some(cx.args[0]))


@d(OL + 'get', OL + 'get_mut')
def once_get(I, cx):
    a, p, v = once_place(I, cx)
    out = []
    for s, k in once_fork(I, cx.st, v):
        if k:
            out.append((s, some(ptr(a, p + (('v', 1, 0, 1),), None))))
        else:
            out.append((s, NONE))
    return out


@d(OL + 'get_or_init', OL + 'get_mut_or_init')
def once_goi(I, cx):
    a, p, v = once_place(I, cx)
    inner = ptr(a, p + (('v', 1, 0, 1),), None)
    out = []
    if a.op == 'static' and v.op != 'agg':
        fs = [(cx.st, 0)]
    else:
        fs = once_fork(I, cx.st, v)
    for s, k in fs:
        if k:
            out.append((s, inner))
            continue
        for s2, r in I.call_value(cx, cx.args[1], cx.tys[1], [], st=s):
            if a.op == 'static':
                I.static_inits.append((a, p, r, cx.site()))
            else:
                s2.emit(Ev('once', 'init', (cx.args[0], r), None, cx.site()))
            I.store(s2, a, p, some(r))
            out.append((s2, inner))
    return out


@d(OL + 'set')
def once_set(I, cx):
    a, p, v = once_place(I, cx)
    out = []
    for s, k in once_fork(I, cx.st, v):
        if k:
            out.append((s, agg(1, (cx.args[1],))))
        else:
            s.emit(Ev('once', 'init', (cx.args[0], cx.args[1]), None, cx.site()))
            I.store(s, a, p, some(cx.args[1]))
            out.append((s, agg(0, (UNIT,))))
    return out


@d(OL + 'into_inner')
def once_into(I, cx):
    return cx.ret(cx.args[0])


@d(OL + 'take')
def once_take(I, cx):
    a, p, v = once_place(I, cx)
    I.store(cx.st, a, p, NONE)
    return cx.ret(v)


# ---------------------------------------------------------------- hash table
HT = 'hashbrown::table::HashTable::<T, A>::'
ENT = mk('sym', 'ent')
ENTV = mk('val', ENT)


def tab_place(I, cx, i=0):
    e = I.p.pointee(cx.tys[i])
    a, p, _ = I.deref(cx.args[i], e)
    v = I.base(cx.st, a)
    for x in p:
        v = proj(v, x)
    return a, p, v


def pure_closure(I, cx, f, fty, args, what):
    """evaluate a closure on generic arguments; it must be free of effects"""
    st = cx.st.copy()
    tr, n = st.trace, st.n
    nout = len(I.outs)
    rs = I.call_value(cx, f, fty, args, st=st, tag=what)
    if len(I.outs) != nout:
        del I.outs[nout:]
        raise Stop('panicking closure passed to a hash table')
    res = []
    for s, r in rs:
        if s.trace is not tr:
            raise Stop('effect in a closure passed to a hash table')
        res.append(r if len(rs) == 1 else mk('path', tuple(sorted(((t, C(v)) for t, v in s.facts.items() if t not in cx.st.facts), key=lambda q: q[0].h)), r))
    return res[0] if len(res) == 1 else mk('paths', *sorted(res, key=lambda q: q.h))


def slot_of(hash, pred):
    if pred.op == 'op' and pred.a[0] == 'eq':
        x, y = pred.a[1], pred.a[2]
        for p, q in ((x, y), (y, x)):
            if not contains(q, lambda z: z is ENT) and p.op == 'fld' and p.a[0] is ENTV and p.a[1] == 0:
                return ops.op('slot', hash, q)
    return ops.op('slotp', hash, pred)


def strip_sto(h):
    while h.op == 'sto':
        h = h.a[0]
    return h


def has(I, h, hash, pred, slot):
    h = strip_sto(h)
    if h.op == 'op':
        if h.a[0] == 'tnew':
            return FALSE
        if h.a[0] == 'ins':
            p = subst(pred, {ENTV: h.a[3]})
            if p is TRUE:
                return TRUE if h.a[2] is hash else ops.op('has', h, slot)
            if p is FALSE:
                return has(I, h.a[1], hash, pred, slot)
        if h.a[0] == 'rm' and h.a[2] is slot:
            return FALSE
    return ops.op('has', h, slot)


def find_common(I, cx, mkfound, mknone):
    a, p, h = tab_place(I, cx)
    pred = pure_closure(I, cx, cx.args[2], cx.tys[2], [ENT], 'eq')
    slot = slot_of(cx.args[1], pred)
    t = has(I, h, cx.args[1], pred, slot)
    out = []
    for s, k in fork(I, cx.st, t):
        out.append((s, mkfound(a, p, slot) if k else mknone(slot)))
    return out


@d(HT + 'find', HT + 'find_mut')
def t_find(I, cx):
    return find_common(I, cx, lambda a, p, s: some(ptr(a, p + (('i', s),), None)), lambda s: NONE)


@d(HT + 'find_entry')
def t_find_entry(I, cx):
    tp = cx.args[0]
    return find_common(I, cx, lambda a, p, s: agg(0, (mk('occ', tp, s),)), lambda s: agg(1, (mk('abs', tp),)))


@d(HT + 'entry')
def t_entry(I, cx):
    tp = cx.args[0]
    hs = pure_closure(I, cx, cx.args[3], cx.tys[3], [ENT], 'hash')
    return find_common(I, cx, lambda a, p, s: agg(0, (mk('occ', tp, s),)), lambda s: agg(1, (mk('vac', tp, cx.args[1], hs),)))


def t_insert(I, cx, tp, hash, value, hs):
    a, p, _ = I.deref(tp, None)
    h = I.base(cx.st, a)
    for x in p:
        h = proj(h, x)
    cx.st.emit(Ev('table', 'insert', (tp, hash, value, hs), None, cx.site(), h))
    I.store(cx.st, a, p, ops.op('ins', h, hash, value))
    k = proj(value, ('f', 0, 2)) if value.op == 'agg' else mk('fld', value, 0, 2)
    return mk('occ', tp, ops.op('slot', hash, k))


@d(HT + 'insert_unique')
def t_insert_unique(I, cx):
    hs = pure_closure(I, cx, cx.args[3], cx.tys[3], [ENT], 'hash')
    return cx.ret(t_insert(I, cx, cx.args[0], cx.args[1], cx.args[2], hs))


@d("hashbrown::table::VacantEntry::<'a, T, A>::insert")
def t_vac_insert(I, cx):
    v = cx.args[0]
    if v.op != 'vac':
        raise Stop('vacant entry of unknown origin')
    return cx.ret(t_insert(I, cx, v.a[0], v.a[1], cx.args[1], v.a[2]))


@d("hashbrown::table::Entry::<'a, T, A>::or_insert_with", "hashbrown::table::Entry::<'a, T, A>::or_insert")
def t_or_insert(I, cx):
    v = cx.args[0]
    if v.op != 'agg':
        raise Stop('entry of unknown origin')
    if v.a[0] == 0:
        return cx.ret(v.a[1])
    x = v.a[1]
    if cx.f['d'].endswith('or_insert'):
        vals = [(cx.st, cx.args[1])]
    else:
        vals = I.call_value(cx, cx.args[1], cx.tys[1], [])
    out = []
    for s, val in vals:
        cx.st = s
        out.append((s, t_insert(I, cx, x.a[0], x.a[1], val, x.a[2])))
    return out


def occ(I, st, v, ty=None):
    if v.op == 'ptr':
        v = I.load(st, v.a[0], v.a[1], None)
    if v.op != 'occ':
        raise Stop('occupied entry of unknown origin')
    a, p, _ = I.deref(v.a[0], None)
    return a, p, v.a[1]


@d("hashbrown::table::OccupiedEntry::<'a, T, A>::into_mut", "hashbrown::table::OccupiedEntry::<'a, T, A>::get",
   "hashbrown::table::OccupiedEntry::<'a, T, A>::get_mut")
def t_into_mut(I, cx):
    a, p, s = occ(I, cx.st, cx.args[0])
    return cx.ret(ptr(a, p + (('i', s),), None))


@d("hashbrown::table::AbsentEntry::<'a, T, A>::into_table", "hashbrown::table::OccupiedEntry::<'a, T, A>::into_table",
   "hashbrown::table::VacantEntry::<'a, T, A>::into_table")
def t_into_table(I, cx):
    v = cx.args[0]
    if v.op not in ('occ', 'abs', 'vac'):
        raise Stop('entry of unknown origin')
    return cx.ret(v.a[0])


SEALED = re.compile(r'^<?(hashbrown::(table|raw)::|std::sync::OnceLock\b|std::cell::OnceCell\b|indexmap::|lasso::|phf::)')


def sealed(I, name, tys):
    if SEALED.match(name):
        return True
    if re.match(r'^<?(bytes::Bytes|std::vec::Vec\b)', name) and tys and tys[0] is not None:
        from . import bufs
        d = I.p.tys[I.p.core(tys[0])]
        return bufs.kind(I, d['e'] if d['t'] in ('ref', 'ptr') else tys[0]) == 'buf'
    return False


@d(HT + 'reserve', HT + 'shrink_to', HT + 'shrink_to_fit', HT + 'try_reserve')
def t_rehash(I, cx):
    """entries may move to the places the closure's hashes name; which are present stays"""
    a, p, h = tab_place(I, cx)
    hs = pure_closure(I, cx, cx.args[-1], cx.tys[-1], [ENT], 'hash')
    cx.st.emit(Ev('rehash', cx.f['d'].rsplit('::', 1)[1], (cx.args[0], hs), None, cx.site(), h))
    return cx.ret(agg(0, (UNIT,)) if cx.f['d'].endswith('try_reserve') else UNIT)


@d(HT + 'capacity')
def t_capacity(I, cx):
    return cx.ret(cx.st.fresh())


@d("hashbrown::table::OccupiedEntry::<'a, T, A>::remove")
def t_remove(I, cx):
    a, p, s = occ(I, cx.st, cx.args[0])
    tp = cx.args[0].a[0]
    h = I.base(cx.st, a)
    for x in p:
        h = proj(h, x)
    val = sel(h, s)
    cx.st.emit(Ev('table', 'remove', (tp, s), val, cx.site(), h))
    I.store(cx.st, a, p, ops.op('rm', strip_sto(h), s))
    return cx.ret(agg(0, (val, mk('vac', tp, C0, C0))))


@d('hashbrown::table::HashTable::<T>::new', 'hashbrown::table::HashTable::<T>::with_capacity', HT + 'new_in', HT + 'with_capacity_in',
   '<hashbrown::table::HashTable<T, A> as std::default::Default>::default')
def t_new(I, cx):
    return cx.ret(ops.op('tnew'))


@d(HT + 'len')
def t_len(I, cx):
    a, p, h = tab_place(I, cx)
    h = strip_sto(h)
    if h.op == 'op' and h.a[0] == 'tnew':
        return cx.ret(C0)
    return cx.ret(ops.op('tlen', h))


@d(HT + 'is_empty')
def t_isempty(I, cx):
    a, p, h = tab_place(I, cx)
    return cx.ret(ops.eq(ops.op('tlen', strip_sto(h)), C0))


@d(HT + 'iter', HT + 'iter_mut', "<&'a hashbrown::table::HashTable<T, A> as std::iter::IntoIterator>::into_iter",
   "<&'a mut hashbrown::table::HashTable<T, A> as std::iter::IntoIterator>::into_iter")
def t_iter(I, cx):
    return cx.ret(agg(0, (cx.args[0], C0)))


@d("<hashbrown::table::Iter<'a, T> as std::iter::Iterator>::next", "<hashbrown::table::IterMut<'a, T> as std::iter::Iterator>::next")
def t_next(I, cx):
    st = cx.st
    e = I.p.pointee(cx.tys[0])
    ia, ip, _ = I.deref(cx.args[0], e)
    it = I.load(st, ia, ip, None)
    if it.op != 'agg' or len(it.a) != 3:
        raise Stop('hash table iterator of unknown origin')
    tp, idx = it.a[1], it.a[2]
    a, p, _ = I.deref(tp, None)
    h = I.base(st, a)
    for x in p:
        h = proj(h, x)
    out = []
    for s, k in fork(I, st, ops.ult(64, idx, ops.op('tlen', strip_sto(h)))):
        if k:
            I.store(s, ia, ip, agg(0, (tp, add(64, idx, C(1)))))
            out.append((s, some(ptr(a, p + (('i', idx),), None))))
        else:
            out.append((s, NONE))
    return out


# ---------------------------------------------------------------- heap
def heap(st):
    a = mk('heap', st.scope, st.n)
    st.n += 1
    return a


@pat(r'^std::vec::Vec::<T>::(new|with_capacity)$|^std::vec::Vec::<T, A>::(new_in|with_capacity_in)$')
def vec_new(I, cx):
    if cx.dty is not None and bufs.kind(I, cx.dty) == 'buf':
        return cx.ret(bufs.BNEW)
    a = heap(cx.st)
    ety = vec_elem(I, cx.dty)
    cap = cx.args[0] if cx.args and not cx.f['d'].endswith(('new', 'new_in')) else C0
    if I.p.zst(cx.dty):
        return NotImplemented
    return cx.ret(mkvec(ptr(a, (('i', C0),), None), cap, C0))


def vec_elem(I, ty):
    """element type id of Vec<T>"""
    return None


def mkvec(p, cap, n):
    return agg(0, (agg(0, (p, cap, UNIT)), n))


def vec_of(I, st, v):
    """-> (ptr term, cap, len)"""
    if v.op == 'agg' and len(v.a) == 3 and v.a[1].op == 'agg':
        return v.a[1].a[1], v.a[1].a[2], v.a[2]
    raise Stop('vector of unknown shape')


@d('std::vec::Vec::<T, A>::resize_with')
def vec_resize_with(I, cx):
    st = cx.st
    e = I.p.pointee(cx.tys[0])
    va, vp, _ = I.deref(cx.args[0], e)
    v = I.load(st, va, vp, e)
    p, cap, n = vec_of(I, st, v)
    if n is not C0:
        raise Stop('resize of a non-empty vector')
    want = cx.args[1]
    out = []
    tr = st.trace
    for s, r in I.call_value(cx, cx.args[2], cx.tys[2], [], st=st):
        if s.trace is not tr:
            raise Stop('effect in the initialiser of a vector')
        I.store(s, p.a[0], (), mk('rep', r, want))
        I.store(s, va, vp, mkvec(p, want, want))
        out.append((s, UNIT))
    return out


@d('std::vec::Vec::<T, A>::into_boxed_slice')
def vec_into_boxed(I, cx):
    p, cap, n = vec_of(I, cx.st, cx.args[0])
    return cx.ret(ptr(p.a[0], p.a[1], n))


@d('alloc::alloc::exchange_malloc', 'std::alloc::exchange_malloc', 'alloc::boxed::box_new_uninit', 'std::boxed::box_new_uninit')
def exch(I, cx):
    return cx.ret(ptr(heap(cx.st), (), None))


# ---------------------------------------------------------------- formatting
def owned(I, cx, v):
    """a vector or string holding a copy of the text `v` (which is never changed in place afterwards)"""
    a, pre, start, n = I.slice_of(v)
    if n is None:
        raise Stop('copy of unknown length')
    return cx.ret(agg(0, (agg(0, (ptr(a, pre + (('i', start),), None), n, agg(0, ()))), n)))


@pat(r'^<[iu](8|16|32|64|size) as std::string::SpecToString>::spec_to_string$')
def int_to_string(I, cx):
    t = I.p.pointee(cx.tys[0])
    k, w = I.p.int_info(t)
    return owned(I, cx, ops.op('itoa', k, w, content(I, cx.st, cx.args[0], cx.tys[0])))


@d('<str as std::string::SpecToString>::spec_to_string', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
   '<std::string::String as std::convert::From<&str>>::from')
def str_to_string(I, cx):
    return owned(I, cx, cx.args[0])


# `format_args!`: a template of literal pieces and places for arguments (see core::fmt::Arguments); only places without
# options, for strings, integers and characters, are followed
def fmt_pieces(I, st, a):
    """-> list of literal bytes and of argument values"""
    if a.op != "agg" or len(a.a) != 3:
        raise Stop('format arguments of unknown form')
    t, args = a.a[1:]
    if args.op == 'op' and args.a[0] == 'transmute' and args.a[-1].op == 'c':
        args = args.a[-1]       # no arguments: their place holds the length of the text
    if args.op == 'c':
        n = args.a[0] >> 1
        return [(ptr(t.a[0], t.a[1], C(n)) if t.op == 'ptr' else t)]
    al, pre, start, _ = I.slice_of(t)
    base = I.base(st, al)
    for e in pre:
        base = proj(base, e)

    def byte(i):
        x = sel(base, C(start.a[0] + i))
        if x.op != 'c':
            raise Stop('format template of unknown content')
        return x.a[0]
    aal, apre, astart, _ = I.slice_of(args)
    abase = I.base(st, aal)
    for e in apre:
        abase = proj(abase, e)
    out, i, k = [], 0, 0
    while True:
        n = byte(i)
        i += 1
        if n == 0:
            return out
        if n <= 0x80:
            if n == 0x80:
                n = byte(i) | byte(i + 1) << 8
                i += 2
            out.append(ptr(al, pre + (('i', C(start.a[0] + i)),), C(n)))
            i += n
        elif n == 0xC0:
            out.append(mk('place', sel(abase, C(astart.a[0] + k))))
            k += 1
        else:
            raise Stop('format options')


def fmt_text(I, st, fid, v):
    """the text the formatter `fid` writes for the value behind `v`: a str value, or None"""
    P = I.p
    name = P.fns[fid]['d']
    if name == '<str as std::fmt::Display>::fmt':
        return v
    m = re.fullmatch(r'core::fmt::num::imp::<impl std::fmt::Display for (\w+)>::fmt', name)
    if m:
        t = next(t for t, d in P.tys.items() if d['n'] == m.group(1))
        k, w = P.int_info(t)
        al, p, _ = I.deref(v, t)
        return ops.op('itoa', k, w, I.load(st, al, p, t))
    return None


@d('std::fmt::write')
def fmt_write(I, cx):
    P = I.p
    out = cx.args[0]
    if out.op != 'dynptr':
        return NotImplemented
    fe = out.a[1].a[0]
    w = next((x for _, m in P.vts.get(fe, ()) for x in m if x is not None and P.fns[x]['d'].endswith('::write_str')), None)
    if w is None:
        return NotImplemented
    states = [cx.st]
    res = []
    for n, x in enumerate(fmt_pieces(I, cx.st, cx.args[1])):
        nxt = []
        for st in states:
            if x.op == 'place':
                for s, r in fmt_arg(I, cx, st, x.a[0], out, n):
                    once(I, s, r, nxt, res)
                continue
            for s, r in I.call(st, cx.fr, ('cb', cx.b, n), w, [out.a[0], x], [P.fns[w]['locals'][1], P.fns[w]['locals'][2]], cx.sp):
                once(I, s, r, nxt, res)
        states = nxt
    return res + [(s, agg(0, (UNIT,))) for s in states]


def once(I, s, r, ok, bad):
    """sorts the outcome of one piece"""
    if r.op == 'agg':
        (bad if r.a[0] else ok).append((s, r) if r.a[0] else s)
        return
    for s2, k in fork(I, s, ops.op('discr', r)):
        if k:
            bad.append((s2, agg(1, (UNIT,))))
        else:
            ok.append(s2)


def fmt_arg(I, cx, st, a, out, n):
    P = I.p
    while a.op == "agg" and a.a[0] == 0 and len(a.a) == 2:
        a = a.a[1]
    if a.op != "agg" or len(a.a) < 3 or a.a[0] != 0 or a.a[2].op != "fnptr":
        raise Stop('format argument of unknown form: ' + show(a)[:80])
    v, fp = a.a[1], a.a[2].a[0]
    fe = out.a[1].a[0]
    w = next(x for _, m in P.vts.get(fe, ()) for x in m if x is not None and P.fns[x]['d'].endswith('::write_str'))
    while P.fns[fp]['d'] == '<&T as std::fmt::Display>::fmt':
        # through the reference
        t = P.fns[fp]['locals'][1]
        e = P.pointee(t)
        al, p, m = I.deref(v, e)
        v = I.load(st, al, p, e)
        nf = [x for b in P.fns[fp]['blocks'] for x in ([b['t'][1]] if b['t'][0] == 'call' else []) if isinstance(x, int)]
        if len(nf) != 1:
            raise Stop('format argument behind a reference')
        fp = nf[0]
    x = fmt_text(I, st, fp, v)
    if x is None:
        raise Stop('formatting by ' + P.fns[fp]['d'])
    return I.call(st, cx.fr, ('cb', cx.b, n), w, [out.a[0], x], [P.fns[w]['locals'][1], P.fns[w]['locals'][2]], cx.sp)


@d('std::time::Duration::as_nanos')
def as_nanos(I, cx):
    return cx.ret(ops.op('nanos', content(I, cx.st, cx.args[0], cx.tys[0])))


@pat(r'^itoa::Buffer::format$')
def itoa_(I, cx):
    k, w = I.p.int_info(cx.tys[1])
    return cx.ret(ops.op('itoa', k, w, cx.args[1]))


@pat(r'^ryu::buffer::Buffer::(format|format_finite)$|^ryu::Buffer::(format|format_finite)$')
def ryu_(I, cx):
    k, w = I.p.int_info(cx.tys[1])
    return cx.ret(ops.op('ryu', 'finite' if cx.f['d'].endswith('finite') else 'any', w, cx.args[1]))


# ---------------------------------------------------------------- byte search
# iterator = {needles, haystack, position}; the next match is the first byte at or after the position
# that is one of the needles
def needle_bytes(v):
    return bytes(sorted(x.a[0] for x in v))


@pat(r'^memchr::(memchr::)?memchr[23]?_iter$|^memchr::(memchr::)?Memchr[23]?::<\'h>::new$')
def mc_iter(I, cx):
    ns, h = cx.args[:-1], cx.args[-1]
    if not all(x.op == 'c' for x in ns):
        raise Stop('byte search for unknown bytes')
    return cx.ret(agg(0, (bytes_term(needle_bytes(ns)), h, C0)))


def mc_find(I, st, needles, h, pos):
    """-> [(state, index or None)]"""
    al, pre, start, n = I.slice_of(h)
    base = strval(I, st, h)
    if base.op == 'bytes':
        bs, nd = base.a[0], needles.a[0]
        if not any(b in nd for b in bs):
            return [(st, None)]
        if pos.op == 'c':
            i = next((i for i in range(pos.a[0], len(bs)) if bs[i] in nd), None)
            return [(st, None if i is None else C(i))]
    if base.op == 'op' and base.a[0] in ('itoa', 'ryu') and not any(b in b'0123456789-+.eEinfNa' for b in needles.a[0]):
        return [(st, None)]
    out = []
    off, end = C0, n
    if base.op == 'slc' and base.a[0].op == 'val' and base.a[0].a[0].op != 'ptr' and add(64, base.a[1], base.a[2]) is mk('meta', base.a[0].a[0]):
        # a suffix of a string: positions are counted from the start of the whole string
        off, end, base = base.a[1], mk('meta', base.a[0].a[0]), base.a[0].a[0]
    pos = add(64, pos, off)
    start = sub(64, start, off)
    n = end
    j = ops.op('mfind', needles, base, pos)
    s2 = st.copy()
    has = ops.op('mhas', needles, base, pos)
    k = I.known(st, has)
    if k != 0:
        for b in needles.a[0]:
            s = st.copy()
            u = I.load(s, al, pre + (('i', add(64, start, j)),), None)
            if I.assume(s, has, 1) and I.assume(s, ops.ult(64, j, n), 1) and I.assume(s, ops.ult(64, j, pos), 0) and I.assume(s, u, b):
                out.append((s, sub(64, j, off)))
    if k != 1 and I.assume(s2, has, 0):
        out.append((s2, None))
    return out


@pat(r'^<memchr::(memchr::)?Memchr[23]?<\'h> as std::iter::Iterator>::next$')
def mc_next(I, cx):
    st = cx.st
    e = I.p.pointee(cx.tys[0])
    ia, ip, _ = I.deref(cx.args[0], e)
    it = I.load(st, ia, ip, None)
    if it.op != 'agg' or len(it.a) != 4:
        raise Stop('byte search iterator of unknown origin')
    ns, h, pos = it.a[1:]
    out = []
    for s, j in mc_find(I, st, ns, h, pos):
        if j is None:
            out.append((s, NONE))
        else:
            I.store(s, ia, ip, agg(0, (ns, h, add(64, j, C(1)))))
            out.append((s, some(j)))
    return out


@pat(r'^memchr::(memchr::)?memchr[23]?$')
def mc_one(I, cx):
    ns, h = cx.args[:-1], cx.args[-1]
    if not all(x.op == 'c' for x in ns):
        raise Stop('byte search for unknown bytes')
    return [(s, NONE if j is None else some(j)) for s, j in mc_find(I, cx.st, bytes_term(needle_bytes(ns)), h, C0)]


# ---- chars of a string: element k of an opaque sequence of nchars(s) characters ------------
@pat(r'^core::str::<impl str>::chars$')
def str_chars(I, cx):
    return cx.ret(agg(0, (cx.args[0], C0, ops.op('nchars', cx.args[0]))))


@pat(r"^<std::str::Chars<'a> as std::iter::(Iterator::next|Iterator>::next|DoubleEndedIterator>::next_back)$")
def chars_next(I, cx):
    st = cx.st
    ia, ip, _ = I.deref(cx.args[0], I.p.pointee(cx.tys[0]))
    it = I.load(st, ia, ip, None)
    if it.op != 'agg' or len(it.a) != 4:
        raise Stop('character iterator of unknown origin')
    s, lo, hi = it.a[1:]
    back = cx.f['d'].endswith('next_back')
    out = []
    for t, more in fork(I, st, ops.ult(64, lo, hi)):
        if not more:
            out.append((t, NONE))
            continue
        if back:
            hi2 = sub(64, hi, C(1))
            I.store(t, ia, ip, agg(0, (s, lo, hi2)))
            out.append((t, some(sel(mk('chars', s), hi2))))
        else:
            I.store(t, ia, ip, agg(0, (s, add(64, lo, C(1)), hi)))
            out.append((t, some(sel(mk('chars', s), lo))))
    return out


from . import bufs  # noqa: E402,F401
