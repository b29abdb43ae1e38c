"""Path-partitioned value-flow analysis of MIR.

Every value is a term of the Herbrand domain (terms.py); a state is a finite map from abstract
locations to terms, the branch facts that hold, and the ordered list of observable effects.
Loops are either peeled (when the trip count is a constant of the program) or solved as a
fixpoint: the locations that change are replaced by loop variables, inductive ones are rewritten
to init+step*k and the loop body becomes one summarised effect."""
import sys
from .terms import *
from . import ops
from .mir import Prog, Cfg

sys.setrecursionlimit(100000)

MAXU = 70
CONCRETE = 400      # iterations in which nothing was left to decide


class Stop(Exception):
    """the analysis cannot conclude (reported by the caller; never silently dropped)"""


class State:
    __slots__ = ('mem', 'facts', 'neg', 'iv', 'trace', 'scope', 'n', 'alts')

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.facts = self.facts.copy()
        s.neg = self.neg.copy()
        s.iv = self.iv.copy()
        s.trace = self.trace
        s.scope = self.scope
        s.n = self.n
        s.alts = self.alts
        return s

    def fresh(self, kind='ev'):
        t = mk(kind, self.scope, self.n)
        self.n += 1
        return t

    def emit(self, ev):
        self.trace = (self.trace, ev)


def new_state():
    s = State()
    s.mem, s.facts, s.neg, s.iv, s.trace, s.scope, s.n = {}, {}, {}, {}, None, 0, 0
    s.alts = ()
    return s


def trace_list(tr, stop=None):
    out = []
    while tr is not None and tr is not stop:
        out.append(tr[1])
        tr = tr[0]
    out.reverse()
    return out


class Ev:
    """an observable effect: kind, name, args (terms), result (term), site"""
    __slots__ = ('kind', 'name', 'args', 'res', 'site', 'x')

    def __init__(self, kind, name, args=(), res=None, site=None, x=None):
        self.kind, self.name, self.args, self.res, self.site, self.x = kind, name, tuple(args), res, site, x

    def __repr__(self):
        return '%s:%s(%s)%s' % (self.kind, self.name, ', '.join(show(a) for a in self.args), '' if self.res is None else '=' + show(self.res))


class LoopInfo:
    """a summarised loop: leaves [(key, init, symbol or induction step)], conts and site"""
    def __repr__(self):
        return 'Loop(%s)' % self.id


SKIP = mk('skip')


class Frame:
    __slots__ = ('key', 'f', 'cfg', 'parent', 'callsite', 'depth')


# ---------------------------------------------------------------- value access
def proj(v, e):
    o = v.op
    k = e[0]
    if k == 'f':
        if o == 'agg':
            if e[1] + 1 < len(v.a):
                return v.a[e[1] + 1]
            raise Stop('field %r of %s' % (e, show(v)[:200]))
        if o == 'undef':
            return v
        return mk('fld', v, e[1], e[2])
    if k == 'v':
        if o == 'agg':
            if v.a[0] == e[1] and e[2] + 1 < len(v.a):
                return v.a[e[2] + 1]
            return UNDEF
        if o == 'undef':
            return v
        return mk('vfld', v, e[1], e[2], e[3])
    if k == 'i':
        return sel(v, e[1])
    if k == 'w':
        return mk('win', v, e[1], e[2])
    raise Stop('proj %r' % (e,))


def sel(v, i):
    o = v.op
    if o == 'arr':
        if i.op == 'c':
            if i.a[0] < len(v.a):
                return v.a[i.a[0]]
            return UNDEF
        if len(set(v.a)) == 1:
            return v.a[0]
    elif o == 'bytes':
        if i.op == 'c':
            return C(v.a[0][i.a[0]]) if i.a[0] < len(v.a[0]) else UNDEF
    elif o == 'rep':
        return v.a[0]
    elif o == 'sto':
        if v.a[1] is i:
            return v.a[2]
        d = ops.eq(v.a[1], i)
        if d is FALSE:
            return sel(v.a[0], i)
    elif o == 'op' and v.a[0] == 'ins' and i.op == 'op' and i.a[0] == 'slot' and i.a[1] is v.a[2] and i.a[2] is proj(v.a[3], ('f', 0, 2)):
        return v.a[3]
    elif o == 'win':
        return sel(v.a[0], add(64, v.a[1], i))
    elif o == 'lvp':
        if i is v.a[3]:
            return sel(v.a[2], i)
    elif o == 'undef':
        return v
    elif o == 'tab':     # tab(loopvar, body): element i is body[loopvar:=i]
        return subst(v.a[1], {v.a[0]: i})
    return mk('sel', v, i)


def arr(elems):
    elems = tuple(elems)
    if elems and elems[0].op == 'sel' and elems[0].a[1] is C0:
        b = elems[0].a[0]
        if all(x.op == 'sel' and x.a[0] is b and x.a[1] is C(i) for i, x in enumerate(elems)) and b.ty == ('N', len(elems)):
            return b
    if elems and all(x.op == 'c' and x.a[0] < 256 for x in elems) and False:
        return bytes_term(bytes(x.a[0] for x in elems))
    return mk('arr', *elems)


def setp(v, path, j, new):
    if j == len(path):
        return new
    e = path[j]
    k = e[0]
    if k == 'w':
        if j + 1 == len(path) or path[j + 1][0] != 'i':
            raise Stop('store of a window')
        return setp(v, (('i', add(64, e[1], path[j + 1][1])),) + path[j + 2:], 0, new)
    if k == 'f':
        n = e[2]
        if v.op == 'agg':
            fs = list(v.a[1:])
        elif v.op == 'undef':
            fs = [UNDEF] * n
        else:
            fs = [mk('fld', v, i, n) for i in range(n)]
        if e[1] >= len(fs):
            raise Stop('set field %r of %s' % (e, show(v)[:100]))
        fs[e[1]] = setp(fs[e[1]], path, j + 1, new)
        return agg(0, fs)
    if k == 'v':
        n = e[3]
        if v.op == 'agg' and v.a[0] == e[1] and len(v.a) == n + 1:
            fs = list(v.a[1:])
        elif v.op in ('agg', 'undef'):
            fs = [UNDEF] * n
        else:
            fs = [mk('vfld', v, e[1], i, n) for i in range(n)]
        fs[e[2]] = setp(fs[e[2]], path, j + 1, new)
        return agg(e[1], fs)
    if k == 'i':
        i = e[1]
        if i.op == 'c':
            if v.op == 'arr' and i.a[0] < len(v.a):
                fs = list(v.a)
                fs[i.a[0]] = setp(fs[i.a[0]], path, j + 1, new)
                return arr(fs)
            if v.op == 'bytes' and i.a[0] < len(v.a[0]):
                fs = [C(b) for b in v.a[0]]
                fs[i.a[0]] = setp(fs[i.a[0]], path, j + 1, new)
                return arr(fs)
            if v.op == 'rep' and v.a[1].op == 'c' and v.a[1].a[0] <= 256:
                fs = [v.a[0]] * v.a[1].a[0]
                if i.a[0] < len(fs):
                    fs[i.a[0]] = setp(fs[i.a[0]], path, j + 1, new)
                    return arr(fs)
        old = sel(v, i)
        return sto(v, i, setp(old, path, j + 1, new))
    raise Stop('set %r' % (e,))


def sto(v, i, x):
    if x.op == 'sel' and x.a[0] is v and x.a[1] is i:
        return v
    if v.op == 'sto' and v.a[1] is i:
        return sto(v.a[0], i, x)
    if v.op == 'sto' and ops.eq(v.a[1], i) is FALSE and i.h < v.a[1].h:
        return mk('sto', sto(v.a[0], i, x), v.a[1], v.a[2])
    return mk('sto', v, i, x)


def shift(path, w, n):
    """advance a trailing element index"""
    if path and path[-1][0] == 'i':
        return path[:-1] + (('i', add(64, path[-1][1], n)),)
    if n is C0:
        return path
    return path + (('i', n),)


class Interp:
    def __init__(self, prog):
        self.p = prog
        self.outs = []          # terminal outcomes (panic/abort) of the current root
        self.loops = {}
        self.loopn = 0
        self.skips = None
        self.unknown = {}
        self.static_inits = []
        self.visited = set()    # functions analysed
        self.steps = 0
        self.maxsteps = 3_000_000
        self.consts = {}
        self.stack = []
        self.hooks = {}
        self.asserts = 0
        self.nomerge = False
        self.summaries = {}     # function id -> transfer function established beforehand
        from . import prims
        self.prims = prims
        self.primmemo = {}

    # ------------------------------------------------------------ memory
    def base(self, st, alloc):
        v = st.mem.get(alloc)
        if v is None:
            o = alloc.op
            if o == 'const':
                v = alloc.a[0]
            elif o == 'loc':
                v = UNDEF
            elif o == 'unit':
                v = UNIT
            else:
                v = mk('val', alloc.a[0] if o == 'deref' else alloc)
        return v

    def load(self, st, alloc, path, ty):
        if ty is not None and self.p.zst(ty):
            return UNIT
        v = self.base(st, alloc)
        for e in path:
            v = proj(v, e)
        if ty is not None and v.op in ('sel', 'fld', 'val', 'vfld', 'ev', 'sym') and v.ty is None:
            hint(v, self.tyhint(ty))
        return v

    def tyhint(self, ty):
        d = self.p.tys[self.p.core(ty)]
        if d['t'] == 'array':
            return ('N', d.get('len'))
        return None

    def store(self, st, alloc, path, new, ty=None):
        if ty is not None and self.p.zst(ty):
            return
        if alloc.op == 'unit':
            return
        if not path:
            st.mem[alloc] = new
            return
        st.mem[alloc] = setp(self.base(st, alloc), path, 0, new)

    def deref(self, v, ety):
        """pointer value -> (alloc, path, meta)"""
        if v.op == 'ptr':
            alloc, path, meta = v.a
            return alloc, path, meta
        if v.op == 'undef':
            raise Stop('deref of undefined value')
        kind = self.p.unsized_tail(ety)[0] if ety is not None else None
        alloc = mk('deref', v)
        if kind == 'slice':
            return alloc, (('i', C0),), mk('meta', v)
        if kind == 'dyn':
            return alloc, (), mk('meta', v)
        return alloc, (), None

    def slice_of(self, v):
        """slice/str pointer value -> (alloc, path-prefix, start, len)"""
        if v.op == 'ptr':
            alloc, path, meta = v.a
            if path and path[-1][0] == 'i':
                return alloc, path[:-1], path[-1][1], meta
            return alloc, path, C0, meta
        return mk('deref', v), (), C0, mk('meta', v)

    def window(self, start, te):
        """the path step to the elements from start on, seen as an array of type te"""
        return () if start is C0 else (('w', start, C(self.p.tys[self.p.core(te)]['len'])),)

    def slice_len(self, v):
        return self.slice_of(v)[3]

    def mkslice(self, alloc, pre, start, n):
        return ptr(alloc, pre + (('i', start),), n)

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        f = fr.f
        loc, projs = pl
        ty = f['locals'][loc]
        alloc, path, meta = mk('loc', fr.key, loc), (), None
        variant = None
        P = self.p
        for e in projs:
            k = e if isinstance(e, str) else e[0]
            if k == 'd':
                ety = P.pointee(ty)
                if ety is None:
                    raise Stop('deref of non-pointer type ' + P.name(ty))
                v = self.load(st, alloc, path, ty)
                if P.zst(ety):
                    alloc, path, meta = self.unit(v), (), None
                else:
                    alloc, path, meta = self.deref(v, ety)
                ty = ety
            elif k == 'f':
                i, fty = e[1], e[2]
                if variant is not None:
                    n = len(P.tys[P.core(ty)]['v'][variant]['f'])
                    if alloc.op != 'unit':
                        path = path + (('v', variant, i, n),)
                    variant = None
                elif P.zst(ty) or P.zst(fty):
                    alloc, path, meta = UNITLOC, (), None
                else:
                    er = P.erased(ty)
                    if er is not None:
                        if er != i:
                            # a different union field of the same storage
                            if P.tys[ty]['t'] != 'union':
                                alloc, path, meta = UNITLOC, (), None
                    elif P.tys[ty]['t'] == 'pat':
                        pass
                    else:
                        fs = P.fields(ty)
                        if fs is None:
                            raise Stop('field of ' + P.name(ty))
                        path = path + (('f', i, len(fs)),)
                ty = fty
            elif k == 'v':
                variant = e[1]
            elif k in ('i', 'c', 's'):
                d = P.tys[P.core(ty)]
                if d['t'] == 'array':
                    n, start, pre = C(d['len']), C0, path
                    ety = d['e']
                else:
                    if path and path[-1][0] == 'i':
                        pre, start = path[:-1], path[-1][1]
                    else:
                        pre, start = path, C0
                    n = meta
                    ety = d.get('e')
                if k == 's':
                    to = sub(64, n, C(e[2])) if e[3] else C(e[2])
                    frm = C(e[1])
                    if d['t'] == 'array':
                        # subarray: keep element view
                        path, meta = pre + (('i', add(64, start, frm)),), None
                    else:
                        path, meta = pre + (('i', add(64, start, frm)),), sub(64, to, frm)
                    continue
                if k == 'i':
                    idx = self.load(st, mk('loc', fr.key, e[1]), (), None)
                else:
                    idx = sub(64, n, C(e[1])) if e[2] else C(e[1])
                path, meta = pre + (('i', add(64, start, idx)),), None
                ty = ety
            elif k == 'o':
                ty = e[1]
            else:
                raise Stop('projection ' + str(e))
        return alloc, path, meta, ty

    def unit(self, v):
        return UNITLOC

    # ------------------------------------------------------------ constants
    def const(self, ty, v):
        P = self.p
        if P.zst(ty) or 'z' in v:
            return UNIT
        if 'i' in v:
            n = int(v['i'])
            return C(n)
        if 'f' in v:
            return F(int(v['f']), P.int_info(ty)[1])
        if 's' in v and 'e' not in v:
            c = P.tys[ty]
            if c['t'] == 'pat':
                return self.const(c['e'], v)
            er = P.erased(ty)
            fs = P.fields(ty)
            if er is not None:
                return self.const(fs[er], v['s'][er])
            return agg(0, [self.const(t, x) for t, x in zip(fs, v['s'])])
        if 'e' in v:
            fs = [f[1] for f in P.tys[ty]['v'][v['e']]['f']]
            return agg(v['e'], [self.const(t, x) for t, x in zip(fs, v['s'])])
        if 'u' in v:
            return self.const(P.fields(ty)[v['u']], v['x'])
        if 'a' in v:
            ety = P.tys[P.core(ty)].get('e')
            return arr([self.const(ety, x) for x in v['a']])
        if 'b' in v:
            return bytes_term(bytes.fromhex(v['b']))
        if 'ref' in v or 'wrap' in v:
            ety = P.pointee(ty)
            w = v
            cty = ety
            while 'wrap' in w:
                w = w['wrap']
            if 'n' in w:
                kind, el = P.unsized_tail(ety)
                x = w['ref']
                if 'b' in x:
                    val = bytes_term(bytes.fromhex(x['b']))
                elif 'a' in x:
                    if el is None:
                        val = arr([C(int(y['i'])) for y in x['a']])
                    else:
                        val = arr([self.const(el, y) for y in x['a']])
                else:
                    val = mk('opaque', str(x)[:60])
                return ptr(mk('const', val), (('i', C0),), C(w['n']))
            return ptr(mk('const', self.const(cty, w['ref'])), (), None)
        if 'static' in v:
            return ptr(mk('static', v['static']), (), None)
        if 'fn' in v:
            return mk('fnptr', v['fn'])
        if 'addr' in v:
            return C(int(v['addr']))
        if v.get('o') == 'uninit':
            return UNDEF
        return mk('opaque', str(v)[:80])

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'k':
            key = (o[1], id(o))
            r = self.consts.get(key)
            if r is None:
                r = self.consts[key] = self.const(o[1], o[2])
            return r, o[1]
        if k == 'rc':
            return FALSE, None
        a, p, m, ty = self.place(st, fr, o[1])
        return self.load(st, a, p, ty), ty

    # ------------------------------------------------------------ facts
    def known(self, st, t):
        """the constant value of an integer/boolean term under the path facts, or None"""
        if t.op == 'c':
            return t.a[0]
        r = st.facts.get(t)
        if r is not None:
            return r
        if t.op == 'op':
            n = t.a[0]
            if n == 'not':
                r = self.known(st, t.a[1])
                return None if r is None else 1 - r
            if n == 'eq':
                a, b = t.a[1], t.a[2]
                ka, kb = self.known(st, a), self.known(st, b)
                if ka is not None and kb is not None:
                    return int(ka == kb)
                if kb is not None:
                    if kb in st.neg.get(a, ()):
                        return 0
                    lo, hi = self.interval(st, a)
                    if kb < lo or kb > hi:
                        return 0
                    if lo == hi == kb:
                        return 1
                elif ka is not None:
                    if ka in st.neg.get(b, ()):
                        return 0
                    lo, hi = self.interval(st, b)
                    if ka < lo or ka > hi:
                        return 0
                return None
            if n == 'ult':
                w, a, b = t.a[1], t.a[2], t.a[3]
                la, ha = self.interval(st, a)
                lb, hb = self.interval(st, b)
                if ha < lb:
                    return 1
                if la >= hb:
                    return 0
                # a < b with b = a + c or known chain
                if b.op == 'c' or a.op == 'c':
                    return None
                return None
            if n in ('and', 'or') and t.a[1] == 1:
                x, y = self.known(st, t.a[2]), self.known(st, t.a[3])
                if n == 'and':
                    if x == 0 or y == 0:
                        return 0
                    if x == 1 and y == 1:
                        return 1
                else:
                    if x == 1 or y == 1:
                        return 1
                    if x == 0 and y == 0:
                        return 0
        lo, hi = self.interval(st, t)
        if lo == hi:
            return lo
        return None

    def interval(self, st, t):
        if t.op == 'c':
            return t.a[0], t.a[0]
        r = st.iv.get(t)
        lo = ops.lbound(t)
        hi = ops.ubound(t)
        if hi is None:
            hi = (1 << 128)
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        f = st.facts.get(t)
        if f is not None:
            return f, f
        if t.op == 'op' and t.a[0] in ('zext',):
            l2, h2 = self.interval(st, t.a[3])
            lo, hi = max(lo, l2), min(hi, h2)
        elif t.op == 'op' and t.a[0] == 'trunc':
            l2, h2 = self.interval(st, t.a[3])
            if h2 < (1 << t.a[2]):
                lo, hi = max(lo, l2), min(hi, h2)
        elif t.op == 'op' and t.a[0] in ('shr', 'div') and t.a[3].op == 'c':
            l2, h2 = self.interval(st, t.a[2])
            c = t.a[3].a[0]
            if h2 <= M(t.a[1]):
                if t.a[0] == 'shr' and c < t.a[1]:
                    lo, hi = max(lo, l2 >> c), min(hi, h2 >> c)
                elif t.a[0] == 'div' and c:
                    lo, hi = max(lo, l2 // c), min(hi, h2 // c)
        elif t.op == 'op' and t.a[0] == 'mod' and t.a[3].op == 'c' and t.a[3].a[0]:
            l2, h2 = self.interval(st, t.a[2])
            c = t.a[3].a[0]
            if h2 <= M(t.a[1]) and l2 // c == h2 // c:
                lo, hi = max(lo, l2 % c), min(hi, h2 % c)
        elif t.op == 'op' and t.a[0] in ('or', 'and', 'xor') and t.a[1] > 1 and t.a[3].op == 'c':
            l2, h2 = self.interval(st, t.a[2])
            c = t.a[3].a[0]
            if h2 <= M(t.a[1]):
                if l2 == h2:
                    lo = hi = {'or': l2 | c, 'and': l2 & c, 'xor': l2 ^ c}[t.a[0]]
                elif t.a[0] == 'or':
                    lo, hi = max(lo, l2, c), min(hi, (1 << max(h2, c).bit_length()) - 1)
                elif t.a[0] == 'and':
                    hi = min(hi, h2, c)
        elif t.op == 'op' and t.a[0] == 'clz':
            l2, h2 = self.interval(st, t.a[2])
            w = t.a[1]
            if h2 <= M(w):
                lo, hi = max(lo, w - h2.bit_length()), min(hi, w - l2.bit_length())
        elif t.op == 'poly' and len(t.a[1]) == 2 and t.a[1][0][0] == () and len(t.a[1][1][0]) == 1:
            # const + c*x
            c0 = t.a[1][0][1]
            (x,), c = t.a[1][1]
            w = t.a[0]
            if c == 1:
                l2, h2 = self.interval(st, x)
                if h2 <= M(w):
                    l3, h3 = l2 + c0, h2 + c0
                    if h3 <= M(w):
                        lo, hi = max(lo, l3), min(hi, h3)
                    elif l3 > M(w):
                        lo, hi = max(lo, l3 - (1 << w)), min(hi, h3 - (1 << w))
            elif c < 1 << 16:
                l2, h2 = self.interval(st, x)
                if h2 <= M(w) and h2 * c + c0 <= M(w):
                    lo, hi = max(lo, l2 * c + c0), min(hi, h2 * c + c0)
            elif signed(c, w) < 0:
                l2, h2 = self.interval(st, x)
                k = -signed(c, w)
                if h2 * k <= c0:
                    lo, hi = max(lo, c0 - h2 * k), min(hi, c0 - l2 * k)
        return lo, hi

    def setiv(self, st, t, lo, hi):
        l, h = self.interval(st, t)
        l, h = max(l, lo), min(h, hi)
        if l > h:
            return False
        st.iv[t] = (l, h)
        n = st.neg.get(t)
        if n:
            while l in n and l <= h:
                l += 1
            while h in n and h >= l:
                h -= 1
            if l > h:
                return False
            st.iv[t] = (l, h)
        if t.op == 'op' and t.a[0] == 'zext':
            return self.setiv(st, t.a[3], lo, hi)
        if t.op == 'poly' and len(t.a[1]) == 2 and t.a[1][0][0] == () and len(t.a[1][1][0]) == 1 and t.a[1][1][1] == 1:
            # c0 + x in [l,h]; no wrap below c0 when c0 is "negative"
            c0 = t.a[1][0][1]
            x = t.a[1][1][0][0]
            w = t.a[0]
            xl, xh = self.interval(st, x)
            s0 = signed(c0, w)
            if s0 < 0:
                # x - |c0|: if it does not exceed h < 2^w-|c0| then x >= |c0|
                if h < (1 << w) + s0 and xh <= M(w):
                    return self.setiv(st, x, l - s0, h - s0)
            elif xh + s0 <= M(w):
                return self.setiv(st, x, max(0, l - s0), h - s0)
        return True

    def assume(self, st, t, v):
        """record t == v; False if contradictory"""
        if not self.assume1(st, t, v):
            return False
        return not st.alts or self.alternatives(st, t)

    def alternatives(self, st, t):
        """states joined into this one: keep what is still possible, and what all of it says once only one is left"""
        for g in st.alts:
            if not any(t in a for a in g):
                continue
            left = [a for a in g if all(st.facts.get(x, v) == v for x, v in a.items())]
            if len(left) == len(g):
                continue
            i = st.alts.index(g)
            st.alts = st.alts[:i] + ((tuple(left),) if len(left) > 1 else ()) + st.alts[i + 1:]
            if not left:
                return False
            if len(left) == 1:
                for x, v in left[0].items():
                    if not self.assume(st, x, v):
                        return False
                return True
        return True

    def assume1(self, st, t, v):
        k = self.known(st, t)
        if k is not None:
            if k != v:
                return False
            if t.op == 'c':
                return True
            if t in st.facts:
                return True
        st.facts[t] = v
        if t.op == 'op':
            n = t.a[0]
            if n == 'not':
                return self.assume(st, t.a[1], 1 - v)
            if n == 'and' and t.a[1] == 1:
                if v == 1:
                    return self.assume(st, t.a[2], 1) and self.assume(st, t.a[3], 1)
                x, y = self.known(st, t.a[2]), self.known(st, t.a[3])
                if x == 1:
                    return self.assume(st, t.a[3], 0)
                if y == 1:
                    return self.assume(st, t.a[2], 0)
                return True
            if n == 'or' and t.a[1] == 1:
                if v == 0:
                    return self.assume(st, t.a[2], 0) and self.assume(st, t.a[3], 0)
                x, y = self.known(st, t.a[2]), self.known(st, t.a[3])
                if x == 0:
                    return self.assume(st, t.a[3], 1)
                if y == 0:
                    return self.assume(st, t.a[2], 1)
                return True
            if n == 'eq':
                a, b = t.a[1], t.a[2]
                if b.op == 'c' and a.op != 'ptr':
                    if v:
                        return self.assume(st, a, b.a[0])
                    return self.assume_ne(st, a, b.a[0])
                if v:
                    for x, y in ((a, b), (b, a)):
                        for w in (64, 32, 8):
                            q = mk('op', 'ult', w, x, y)
                            if st.facts.get(q) == 1:
                                return False
                            st.facts[q] = 0
                    ka, kb = self.known(st, a), self.known(st, b)
                    if ka is not None and b.op != 'c':
                        return self.assume(st, b, ka)
                    if kb is not None and a.op != 'c':
                        return self.assume(st, a, kb)
                else:
                    self.induction_ne(st, a, b)
                return True
            if n == 'ult':
                w, a, b = t.a[1], t.a[2], t.a[3]
                la, ha = self.interval(st, a)
                lb, hb = self.interval(st, b)
                if v:
                    e = ops.eq(a, b, w)
                    if e.op != 'c':
                        if st.facts.get(e) == 1:
                            return False
                        st.facts[e] = 0
                    q = mk('op', 'ult', w, b, a)
                    if st.facts.get(q) == 1:
                        return False
                    st.facts[q] = 0
                    return self.setiv(st, a, la, hb - 1) and self.setiv(st, b, la + 1, hb)
                ok = self.setiv(st, a, lb, ha) and self.setiv(st, b, lb, ha)
                if ok:
                    # a >= b, and b >= a known -> equal
                    q = mk('op', 'ult', w, b, a)
                    if st.facts.get(q) == 0:
                        e = ops.eq(a, b, w)
                        if e.op != 'c' and st.facts.get(e) is None:
                            st.facts[e] = 1
                return ok
            if n == 'discr':
                return True
        return self.setiv(st, t, v, v) if t.op not in ('ptr', 'agg') else True

    def assume_ne(self, st, t, v):
        k = self.known(st, t)
        if k is not None:
            return k != v
        st.neg[t] = st.neg.get(t, frozenset()) | {v}
        lo, hi = self.interval(st, t)
        if v == lo or v == hi:
            return self.setiv(st, t, lo + (v == lo), hi - (v == hi))
        return True

    def induction_ne(self, st, a, b):
        """i != n for a unit-step induction variable that starts at or below n: i < n"""
        for x, y in ((a, b), (b, a)):
            ks = [z for z in subterms(x) if z.op == 'k']
            if len(ks) == 1 and not any(z is ks[0] for z in subterms(y)):
                k = ks[0]
                if coef(x, k) == 1:
                    st.facts[mk('op', 'ult', 64, x, y)] = 1
                    st.facts[mk('op', 'ult', 64, y, x)] = 0
                    # scaled-down: x = x0 + k < y  =>  k < y - x0
                    z = sub(64, x, k)
                    if z is not C0:
                        d = sub(64, y, z)
                        st.facts[mk('op', 'ult', 64, k, d)] = 1
                        st.facts[mk('op', 'ult', 64, d, k)] = 0

    # ------------------------------------------------------------ statements
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        P = self.p
        if k == 'use':
            return self.operand(st, fr, r[1])[0]
        if k in ('ref', 'addr'):
            a, p, m, ty = self.place(st, fr, r[1])
            if a.op == 'unit' and m is None:
                return UNITPTR
            return ptr(a, p, m)
        if k == 'agg':
            kk = r[1]
            vs = [self.operand(st, fr, o) for o in r[2]]
            if kk[0] == 'array':
                if P.zst(dty):
                    return UNIT
                return arr([v for v, _ in vs])
            if kk[0] == 'rawptr':
                data, meta = vs[0][0], vs[1][0]
                if meta is UNIT:
                    return data
                a, p, _ = self.deref(data, P.pointee(vs[0][1]))
                if not (p and p[-1][0] == 'i') and P.unsized_tail(kk[1])[0] == 'slice':
                    p = p + (('i', C0),)
                return ptr(a, p, meta)
            if kk[0] == 'adt':
                ty, variant, fidx = kk[1], kk[2], kk[3]
                if P.zst(ty):
                    return UNIT
                d = P.tys[ty]
                if d['t'] == 'enum':
                    return agg(variant, [v for v, _ in vs])
                if fidx is not None:
                    return vs[0][0] if not P.zst(vs[0][1]) else UNDEF
                er = P.erased(ty)
                if er is not None:
                    return vs[er][0]
                return agg(0, [v for v, _ in vs])
            if P.zst(dty):
                return UNIT
            er = P.erased(dty)
            if er is not None:
                return vs[er][0]
            return agg(0, [v for v, _ in vs])
        if k == 'bin':
            a, ta = self.operand(st, fr, r[2])
            b, tb = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, ta, b, tb)
        if k == 'chk':
            a, ta = self.operand(st, fr, r[2])
            b, tb = self.operand(st, fr, r[3])
            kd, w = P.int_info(ta)
            n = r[1]
            v = ops.binop(n, kd, w, a, b)
            if a.op == 'c' and b.op == 'c':
                x, y = a.a[0], b.a[0]
                if kd == 's':
                    x, y = signed(x, w), signed(y, w)
                z = x + y if n == 'Add' else x - y if n == 'Sub' else x * y if n == 'Mul' else None
                if z is not None:
                    ov = not (-(1 << (w - 1)) <= z < (1 << (w - 1))) if kd == 's' else not (0 <= z <= M(w))
                    return agg(0, [v, C(int(ov))])
            if b is C0 or (n in ('Add', 'Mul') and a is C0) or n == 'Mul' and (b is C(1) or a is C(1)):
                return agg(0, [v, FALSE])
            return agg(0, [v, ops.op('ovf', n, kd, w, a, b)])
        if k == 'cast':
            v, fty = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, fty, r[3])
        if k == 'discr':
            a, p, m, ty = self.place(st, fr, r[1])
            return self.discr(self.load(st, a, p, ty), ty)
        if k == 'len':
            a, p, m, ty = self.place(st, fr, r[1])
            d = P.tys[P.core(ty)]
            return C(d['len']) if d['t'] == 'array' else m
        if k == 'rep':
            if P.zst(dty):
                return UNIT
            v = self.operand(st, fr, r[1])[0]
            n = r[2]
            if n is None:
                n = P.tys[P.core(dty)]['len']
            n = int(n)
            if n <= 64:
                return arr([v] * n)
            return mk('rep', v, C(n))
        if k == 'un':
            v, ty = self.operand(st, fr, r[2])
            kd, w = P.int_info(ty)
            if r[1] == 'Not':
                if P.kind(ty) == 'bool':
                    return ops.bool_not(v)
                return ops.bnot(w, v)
            if r[1] == 'Neg':
                return ops.fneg(w, v) if kd == 'f' else neg(w, v)
            if r[1] == 'PtrMetadata':
                e = P.pointee(ty)
                if e is None or P.unsized_tail(e)[0] is None:
                    return UNIT
                if v.op == 'ptr':
                    return v.a[2] if v.a[2] is not None else UNIT
                return mk('meta', v)
        if k == 'tls':
            return ptr(mk('static', 'tls:' + r[1]), (), None)
        raise Stop('rvalue %s' % (r[:2],))

    def binop(self, st, n, a, ta, b, tb):
        P = self.p
        kd, w = P.int_info(ta)
        if n == 'Offset':
            return self.ptr_add(a, ta, b)
        if kd == 'p':
            if n in ('Eq', 'Ne'):
                a, b = self.nometa(a, ta), self.nometa(b, tb)
                e = ops.eq(a, b, 64)
                if a.op == 'ptr' and b is C0 or b.op == 'ptr' and a is C0:
                    e = FALSE
                return e if n == 'Eq' else ops.bool_not(e)
            if n in ('Lt', 'Le', 'Gt', 'Ge') and a.op == 'ptr' and b.op == 'ptr' and a.a[0] is b.a[0]:
                pa, pb = a.a[1], b.a[1]
                if pa and pb and pa[:-1] == pb[:-1] and pa[-1][0] == 'i' and pb[-1][0] == 'i':
                    return ops.binop(n, 'u', 64, pa[-1][1], pb[-1][1])
        if a.op == 'undef' or b.op == 'undef':
            return UNDEF
        if kd == 'u' and w == 1:
            pass
        return ops.binop(n, 'u' if kd in 'pbc' else kd, w, a, b)

    def nometa(self, v, ty):
        if v.op == 'ptr' and v.a[2] is not None:
            return ptr(v.a[0], v.a[1], None)
        e = self.p.pointee(ty) if ty is not None else None
        if e is not None and v.op != 'ptr' and v.op != 'c' and self.p.unsized_tail(e)[0] == 'slice':
            return ptr(mk('deref', v), (('i', C0),), None)
        return v

    def ptr_add(self, p, pty, n):
        e = self.p.pointee(pty)
        if self.p.zst(e):
            return p
        if n is C0:
            return p
        a, path, meta = self.deref(p, e)
        return ptr(a, shift(path, 64, n), meta)

    def discr(self, v, ty):
        P = self.p
        d = P.tys[P.core(ty)]
        if d['t'] != 'enum':
            return C0
        if P.zst(ty):
            for x in d['v']:
                if all(P.inhabited(f[1]) for f in x['f']):
                    return C(x['d'])
            return C0
        if v.op == 'agg':
            if v.a[0] < len(d['v']):
                return C(d['v'][v.a[0]]['d'])
        if v.op == 'undef':
            return UNDEF
        if len(d['v']) == 1:
            return C(d['v'][0]['d'])
        inh = [x for x in d['v'] if all(P.inhabited(f[1]) for f in x['f'])]
        if len(inh) == 1:
            return C(inh[0]['d'])
        t = ops.op('discr', v)
        if t.op == 'op' and t.ty is None:
            hint(t, ('D', tuple(int(x['d']) for x in inh)))
        return t

    def cast(self, st, kind, v, fty, tty):
        P = self.p
        if P.zst(tty):
            return UNIT
        if kind == 'IntToInt':
            fk, fw = P.int_info(fty)
            tk, tw = P.int_info(tty)
            fd = P.tys[P.core(fty)]
            if fd['t'] == 'enum':
                v = self.discr(v, fty)
                fw, fk = tw, 'u'
            return ops.int_cast(fw, fk == 's', tw, v)
        if kind == 'IntToFloat':
            fk, fw = P.int_info(fty)
            if v.op == 'c':
                x = signed(v.a[0], fw) if fk == 's' else v.a[0]
                return fconst(float(x), P.int_info(tty)[1])
            return ops.op('i2f', fk, fw, P.int_info(tty)[1], v)
        if kind == 'FloatToInt':
            return ops.op('f2i', P.int_info(fty)[1], *P.int_info(tty), v)
        if kind == 'FloatToFloat':
            if P.int_info(fty) == P.int_info(tty):
                return v
            return ops.op('f2f', P.int_info(fty)[1], P.int_info(tty)[1], v)
        if kind.startswith('PointerCoercion(Unsize') or 'Unsize' in kind:
            fe, te = P.pointee(fty), P.pointee(tty)
            if fe is None or te is None:
                # Box / Arc / Rc unsizing
                return ops.op('unsize', v)
            fd = P.tys[P.core(fe)]
            k2, el = P.unsized_tail(te)
            if k2 == 'slice' and fd['t'] == 'array':
                if P.zst(fe):
                    return ptr(UNITLOC, (('i', C0),), C(fd['len']))
                a, p, m = self.deref(v, fe)
                return ptr(a, p + (('i', C0),), C(fd['len']))
            if k2 == 'dyn':
                if P.tys[fe]['s'] == -1:
                    return v
                return mk('dynptr', v, C(fe))
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind.startswith('Subtype') or kind.startswith('FnPtrToPtr') \
                or kind.startswith('PointerCoercion'):
            if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
                d = P.tys[fty]
                return mk('fnptr', d.get('fn'))
            fe, te = P.pointee(fty), P.pointee(tty)
            if fe is not None and te is not None:
                fu, tu = P.unsized_tail(fe)[0], P.unsized_tail(te)[0]
                if fu and not tu:
                    if fu == 'slice':
                        if v.op == 'ptr':
                            a, p, m = v.a
                        else:
                            a, p = mk('deref', v), (('i', C0),)
                        if P.kind(te) == 'array' and p and p[-1][0] == 'i':
                            p = p[:-1] + self.window(p[-1][1], te)
                        return ptr(a, p, None)
                    if v.op == 'dynptr':
                        return v.a[0]
                    return ops.op('thin', v)
                if not fu and not tu and P.kind(fe) == 'array' and P.kind(te) != 'array' and v.op != 'c' and not P.zst(te) \
                        and P.core(P.tys[P.core(fe)]['e']) == P.core(te):
                    a, p, m = self.deref(v, fe)
                    return ptr(a, p + (('i', C0),), m)
                if v.op == 'ptr' and not fu and not tu and P.kind(te) == 'array' and P.kind(fe) != 'array' and v.a[1] and v.a[1][-1][0] == 'i':
                    return ptr(v.a[0], v.a[1][:-1] + self.window(v.a[1][-1][1], te), v.a[2])
                return v
            return self.transmute(v, fty, tty)
        if kind.startswith('PointerExposeAddress') or kind.startswith('PointerExposeProvenance') or kind.startswith('PointerWithExposedProvenance'):
            return self.transmute(v, fty, tty)
        if kind == 'BoxDerefTransmute':
            return v
        raise Stop('cast ' + kind)

    def transmute(self, v, fty, tty):
        P = self.p
        cf, ct = P.core(fty), P.core(tty)
        if cf == ct:
            return v
        fk, fw = P.int_info(cf)
        tk, tw = P.int_info(ct)
        if fk == 'f' and tk in 'us' and fw == tw:
            return C(v.a[0]) if v.op == 'f' else v
        if tk == 'f' and fk in 'us' and fw == tw:
            return F(v.a[0], tw) if v.op == 'c' else v
        if fk in 'us' and tk in 'us' and fw == tw:
            return v
        if fk == 'p' and tk == 'p':
            return v
        fd, td = P.tys[cf], P.tys[ct]
        if fd['t'] == 'array' and td['t'] == 'array' and fd.get('len') == td.get('len'):
            return v
        # Option<ptr>/Option<NonZero> niche <-> raw
        for d, other, pack in ((fd, ct, True), (td, cf, False)):
            if d['t'] == 'enum' and len(d['v']) == 2 and d['s'] == P.tys[other]['s'] and len(d['v'][0]['f']) == 0 and len(d['v'][1]['f']) == 1:
                if pack:
                    if v.op == 'agg':
                        return C0 if v.a[0] == 0 else v.a[1]
                    return ops.op('niche', v)
                if v.op == 'c':
                    return agg(0, ()) if v.a[0] == 0 else agg(1, [v])
                if v.op == 'ptr':
                    return agg(1, [v])
        if td['t'] == 'enum' and v.op == 'c':
            for i, x in enumerate(td['v']):
                if x['d'] == v.a[0] and not x['f']:
                    return agg(i, ())
        if td['t'] == 'array' and fk in 'us' and v.op == 'c' and td.get('len'):
            return bytes_term((v.a[0] & M(fw)).to_bytes(fw // 8, 'little'))
        if fd['t'] == 'array' and tk in 'us' and v.op == 'bytes':
            return C(int.from_bytes(v.a[0], 'little'))
        # the bytes of a number, lowest first
        if td['t'] == 'array' and fk in ('u', 's', 'f') and fw > 8 and td.get('len') == fw // 8:
            return ops.op('le', fw, v)
        if fd['t'] == 'array' and tk in 'us' and v.op == 'op' and v.a[0] == 'le' and v.a[1] == tw:
            return v.a[2]
        return ops.op('transmute', P.tys[ct]['n'], v)

    # ------------------------------------------------------------ execution
    def site(self, fr, sp):
        f = fr
        while f is not None:
            if f.f['krate'].startswith('measured'):
                break
            if f.parent is None:
                break
            sp = f.callsite
            f = f.parent
        file = self.p.files.get(sp[0], '?')
        return (file, sp[1], f.f['d'])

    def exec_block(self, fr, b, st):
        """-> list of (next block or ('ret',), state)"""
        blk = fr.f['blocks'][b]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stop('step budget exhausted in ' + fr.f['d'])
        for s in blk['s']:
            if s[0] == '=':
                pl = s[1]
                a, p, m, ty = self.place(st, fr, pl)
                if self.p.zst(ty):
                    # still evaluate nothing
                    continue
                v = self.rvalue(st, fr, s[2], ty)
                self.store(st, a, p, v)
            elif s[0] == 'sd':
                a, p, m, ty = self.place(st, fr, s[1])
                n = len(self.p.tys[self.p.core(ty)]['v'][s[2]]['f'])
                if self.p.zst(ty):
                    continue
                old = self.load(st, a, p, ty)
                if old.op == 'agg' and old.a[0] == s[2]:
                    continue
                self.store(st, a, p, agg(s[2], [UNDEF] * n))
            elif s[0] == 'cpy':
                src, sty = self.operand(st, fr, s[1])
                dst, _ = self.operand(st, fr, s[2])
                n, _ = self.operand(st, fr, s[3])
                self.copy(st, src, dst, n, self.p.pointee(sty))
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [(-1, st)]
        if k == 'switch':
            v, ty = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t[2], t[3], blk['sp'], ty)
        if k == 'drop':
            if t[3] is None or not self.p.drop_matters(t[3]):
                return [(t[4], st)]
            a, p, m, ty = self.place(st, fr, t[1])
            if a.op == 'unit':
                pv = UNITPTR
            else:
                pv = ptr(a, p, m)
            rs = self.call(st, fr, b, t[3], [pv], [None], blk['sp'])
            return [(t[4], s2) for s2, _ in rs]
        if k == 'assert':
            v, _ = self.operand(st, fr, t[1])
            want = t[2]
            kn = self.known(st, v)
            if kn is None:
                bad = st.copy()
                if self.assume(bad, v, 1 - want):
                    self.outs.append(('panic', bad, t[3], self.site(fr, blk['sp'])))
                if not self.assume(st, v, want):
                    return []
                return [(t[4], st)]
            if kn != want:
                self.outs.append(('panic', st, t[3], self.site(fr, blk['sp'])))
                return []
            return [(t[4], st)]
        if k == 'call':
            args, tys = [], []
            for o in t[2]:
                v, ty = self.operand(st, fr, o)
                args.append(v)
                tys.append(ty)
            fn = t[1]
            if isinstance(fn, dict):
                if 'op' in fn:
                    fv, fty = self.operand(st, fr, fn['op'])
                    if fv.op == 'fnptr' and fv.a[0] is not None:
                        fn = fv.a[0]
                    else:
                        fn = None
                        name = 'indirect'
                        args = [fv] + args
                        tys = [fty] + tys
                else:
                    fn, name = None, fn['unres']
            da, dp, dm, dty = self.place(st, fr, t[3])
            if fn is None:
                rs = self.opaque_call(st, fr, name, args, tys, dty, blk['sp'])
            else:
                rs = self.call(st, fr, b, fn, args, tys, blk['sp'], dty)
            if t[4] is None:
                return []
            out = []
            for s2, r in rs:
                if r is SKIP:
                    h = self.again(fr, b)
                    if h == -1:
                        s2.mem[mk('loc', fr.key, 0)] = SKIP
                    out.append((h, s2))
                    continue
                if not self.p.zst(dty):
                    if t[3][1]:
                        da, dp, dm, dty = self.place(s2, fr, t[3])
                    self.store(s2, da, dp, r)
                out.append((t[4], s2))
            return out
        if k == 'unreach':
            return []
        if k in ('resume', 'abort'):
            return []
        raise Stop('terminator ' + k)

    def copy(self, st, src, dst, n, ety):
        if self.p.zst(ety):
            return
        if n is not C(1):
            kn = self.known(st, n)
            if kn is None or kn > 64:
                raise Stop('copy of unknown length')
            for i in range(kn):
                a, p, _ = self.deref(src, ety)
                v = self.load(st, a, shift(p, 64, C(i)) if kn > 1 else p, ety)
                a, p, _ = self.deref(dst, ety)
                self.store(st, a, shift(p, 64, C(i)) if kn > 1 else p, v)
            return
        a, p, _ = self.deref(src, ety)
        v = self.load(st, a, p, ety)
        a, p, _ = self.deref(dst, ety)
        self.store(st, a, p, v, ety)

    def switch(self, st, fr, v, targets, otherwise, sp, ty):
        k = self.known(st, v)
        if k is not None:
            for val, b in targets:
                if int(val) == k:
                    return [(b, st)]
            return [(otherwise, st)]
        if v.op == 'undef':
            raise Stop('branch on undefined value in %s' % fr.f['d'])
        out = []
        w = 1 << 130
        isbool = v.op == 'op' and v.a[0] in ('ult', 'slt', 'eq', 'flt', 'fle', 'feq', 'not', 'and', 'or', 'ovf') and (v.a[0] not in ('and', 'or') or v.a[1] == 1)
        if ty is not None and self.p.kind(ty) == 'bool':
            isbool = True
        blocks = fr.f['blocks']
        unre = blocks[otherwise]['t'][0] == 'unreach'
        for val, b in targets:
            val = int(val)
            if blocks[b]['t'][0] == 'unreach' and not blocks[b]['s']:
                continue
            s2 = st.copy()
            if self.assume(s2, v, val):
                out.append((b, s2))
        if not unre:
            s2 = st.copy()
            ok = True
            if isbool and len(targets) == 1:
                ok = self.assume(s2, v, 1 - int(targets[0][0]))
            else:
                for val, _ in targets:
                    if not self.assume_ne(s2, v, int(val)):
                        ok = False
                        break
                if ok and v.op == 'op' and v.a[0] == 'discr' and v.ty:
                    rest = [x for x in v.ty[1] if x not in s2.neg.get(v, ())]
                    ok = bool(rest) and (len(rest) > 1 or self.assume(s2, v, rest[0]))
            if ok:
                out.append((otherwise, s2))
        return out

    def region(self, fr, start, st, loop):
        """run from `start` until return, back edge to loop.head or exit from loop.body.
        -> (rets, conts, exits[(block,state)])"""
        rets, conts, exits = [], [], []
        work = [(start, st, True)]
        loops = fr.cfg.loops
        while work:
            b, s, first = work.pop()
            while True:
                if loop is not None:
                    if b == loop.head and not first:
                        conts.append(s)
                        break
                    if b not in loop.body:
                        exits.append((b, s))
                        break
                if b in loops and not (first and loop is not None and b == loop.head):
                    r2, ex = self.exec_loop(fr, loops[b], s)
                    rets.extend(r2)
                    for eb, es in ex:
                        work.append((eb, es, False))
                    break
                first = False
                nx = self.exec_block(fr, b, s)
                rets += [ns for nb, ns in nx if nb == -1]
                nx = [x for x in nx if x[0] != -1]
                if not nx:
                    break
                for nb, ns in nx[1:]:
                    work.append((nb, ns, False))
                b, s = nx[0]
        return rets, conts, exits

    # ---- loops
    def again(self, fr, b):
        """the loop head from which the call in block b is reached again with nothing else done; -1 when that is the
        entry of an iterator's `next` (which its caller can call again); else None"""
        hs = [h for h, L in fr.cfg.loops.items() if b in L.body]
        f = fr.f
        if hs:
            h = min(hs, key=lambda h: len(fr.cfg.loops[h].body))
        elif 'std::iter::Iterator>::next' in f['d'] and f['krate'] in ('core', 'alloc', 'std'):
            h = 0
        else:
            return None
        x = h
        for _ in range(8):
            blk = f['blocks'][x]
            for q in blk['s']:
                if q[0] == '=' and q[1][1]:
                    return None
            if x == b:
                return h if hs else -1
            if blk['t'][0] != 'goto':
                return None
            x = blk['t'][1]
        return None

    def can_skip(self, fr, b):
        while fr is not None and isinstance(b, int):
            h = self.again(fr, b)
            if h != -1:
                return h is not None
            fr, b = fr.parent, fr.key.a[1]
        return False

    def gc(self, fr, head, st):
        live = fr.cfg.livein()[head]
        key = fr.key
        roots = []
        mine = {}
        for a in st.mem:
            if a.op == 'loc' and a.a[0] is key:
                mine[a] = a.a[1] in live
        keep = set()
        todo = [a for a in st.mem if a not in mine or mine[a]]
        seen = set()
        while todo:
            a = todo.pop()
            if a in keep:
                continue
            keep.add(a)
            v = st.mem[a]
            for x in subterms(v, None):
                if x.op == 'ptr':
                    y = x.a[0]
                    if y in st.mem and y not in keep:
                        todo.append(y)
        for a in list(st.mem):
            if a not in keep and a in mine:
                del st.mem[a]

    def opaque_progress(self, hist):
        """consecutive iterations continue under the same int comparison against a different
        constant: the trip count is not a program constant"""
        if len(hist) < 3:
            return False
        a, b = hist[-2], hist[-1]
        for t, v in b.items():
            if t.op == 'op' and t.a[0] in ('eq', 'ult', 'slt'):
                x, y = t.a[-2], t.a[-1]
                for u, w in a.items():
                    if u.op == 'op' and u.a[0] == t.a[0] and w == v and u is not t:
                        p, q = u.a[-2], u.a[-1]
                        if x is p and x.op != 'c' and cdiff(y, q) or y is q and y.op != 'c' and cdiff(x, p):
                            return True
            if t.op == 'op' and t.a[0] == 'casok' or t.op == 'casok':
                return True
        return False

    def exec_loop(self, fr, L, S):
        S = S.copy()
        self.gc(fr, L.head, S)
        if self.skips is not None:
            # the search of a filtering adapter: rejected elements go back to the loop that asked
            skips, self.skips = self.skips, None
            r, c, e = self.region(fr, L.head, S, L)
            skips += c
            self.skips = skips
            return r, e
        mark = len(self.outs)
        rets, exits = [], []
        cur = [S]
        hist = []
        ok = False
        for it in range(CONCRETE):
            if it >= MAXU and (h or len(cur) > 1 or exits or rets):
                break
            nxt = []
            h = None
            for s in cur:
                r, c, e = self.region(fr, L.head, s.copy(), L)
                rets += r
                exits += e
                nxt += c
                for cs in c:
                    new = {t: v for t, v in cs.facts.items() if t not in s.facts}
                    for t, ng in cs.neg.items():
                        if t not in s.neg:
                            for x in ng:
                                new[mk('op', 'eq', t, C(x))] = 0
                    h = new
            if not nxt:
                ok = True
                break
            hist.append(h)
            if self.opaque_progress(hist) or len(nxt) > 40 or len(exits) > 600:
                break
            for s in nxt:
                self.gc(fr, L.head, s)
            cur = self.merge(nxt)
        if ok:
            return rets, exits
        del self.outs[mark:]
        return self.fix_loop(fr, L, S)

    def fix_loop(self, fr, L, S):
        self.loopn += 1
        lid = mk('loop', self.loopn)
        leaves = {}     # (alloc, path) -> init value
        mark = len(self.outs)
        H = None
        for rnd in range(12):
            H = S.copy()
            H.scope, H.n = lid, 0
            for (a, path), init in leaves.items():
                sym = mk('lv', lid, C(leafid(a, path)))
                if sym.ty is None:
                    hint(sym, init.ty)
                H.mem[a] = putleaf(self.base(H, a), path, 0, sym)
            H.trace = (H.trace, Ev('loop', 'loop', (), None, None, lid))
            del self.outs[mark:]
            r, c, e = self.region(fr, L.head, H.copy(), L)
            for s in c:
                self.gc(fr, L.head, s)
            new = {}
            for s in c:
                for a, w in s.mem.items():
                    v = H.mem.get(a)
                    if v is None:
                        if a.op in ('loc', 'unit', 'const'):
                            continue
                        v = self.base(H, a)
                    if w is not v:
                        diff(v, w, (), a, new, lid)
            new = {k: v for k, v in new.items() if k not in leaves}
            if not new:
                break
            # drop finer leaves subsumed by coarser ones
            allk = dict(leaves)
            allk.update(new)
            for (a, p) in list(allk):
                for j in range(len(p)):
                    if (a, p[:j]) in allk:
                        allk.pop((a, p), None)
                        break
            leaves = {}
            for (a, p) in allk:
                leaves[(a, p)] = getleaf(self.base(S, a), p)
        else:
            raise Stop('loop fixpoint not reached in ' + fr.f['d'])
        # inductions
        k = mk('k', lid)
        ind = {}
        for (a, p), init in leaves.items():
            sym = mk('lv', lid, C(leafid(a, p)))
            ds = set()
            for s in c:
                u = getleaf(self.base(s, a), p)
                ds.add(step_of(u, sym))
            if len(ds) == 1 and None not in ds and c:
                w, d = ds.pop()
                if d.op == 'c' and d is not C0:
                    ind[(a, p)] = (w, d, add(w, init, mul(w, d, k)))
                elif d.op == 'fill':
                    pass
        sub1 = {mk('lv', lid, C(leafid(a, p))): t for (a, p), (w, d, t) in ind.items()}

        def rerun():
            H = S.copy()
            H.scope, H.n = lid, 0
            for (a, path), init in leaves.items():
                sym = mk('lv', lid, C(leafid(a, path)))
                H.mem[a] = putleaf(self.base(H, a), path, 0, sub1.get(sym, sym))
            H.trace = (H.trace, Ev('loop', 'loop', (), None, None, lid))
            del self.outs[mark:]
            r, c, e = self.region(fr, L.head, H.copy(), L)
            for s in c:
                self.gc(fr, L.head, s)
            return H, r, c, e
        if ind:
            H, r, c, e = rerun()
        # leaves that start equal and are updated equally stay equal
        lvs = [(key, mk('lv', lid, C(leafid(*key))), init) for key, init in leaves.items() if key not in ind]
        if len(lvs) > 1 and c:
            classes = {}
            for q in lvs:
                classes.setdefault(q[2], []).append(q)
            classes = [x for x in classes.values() if len(x) > 1]
            while True:
                m = {q[1]: x[0][1] for x in classes for q in x}
                nc = []
                for x in classes:
                    parts = {}
                    for q in x:
                        parts.setdefault(tuple(subst(getleaf(self.base(s, q[0][0]), q[0][1]), m) for s in c), []).append(q)
                    nc += [y for y in parts.values() if len(y) > 1]
                if sorted(map(len, nc)) == sorted(map(len, classes)) and len(nc) == len(classes):
                    break
                classes = nc
            if classes:
                saved = dict(sub1)
                for x in classes:
                    for q in x[1:]:
                        sub1[q[1]] = x[0][1]
                H, r, c, e = rerun()
                for x in classes:
                    for s in c:
                        if len({getleaf(self.base(s, q[0][0]), q[0][1]) for q in x}) != 1:
                            sub1 = saved
                if sub1 is saved:
                    H, r, c, e = rerun()
        # arrays updated only at one index that is different in every iteration: element [index]
        # still has its initial value when an iteration reads it
        part = {}
        for (a, p), init in leaves.items():
            sym = mk('lv', lid, C(leafid(a, p)))
            if sym in sub1 or not c:
                continue
            idx = set()
            for s in c:
                u = getleaf(self.base(s, a), p)
                while u.op == 'sto':
                    idx.add(u.a[1])
                    u = u.a[0]
                if u is not sym:
                    idx.add(None)
            if len(idx) == 1 and None not in idx:
                i = idx.pop()
                st_ = step_of(i, k)
                if st_ and st_[1].op == 'c' or i is k:
                    part[sym] = (i, init)
        if part:
            seen = set()

            def scan(sts, base):
                for s, tr in sts:
                    for t in s.facts:
                        subterms(t, seen)
                    for v in s.mem.values():
                        subterms(v, seen)
                    for ev in tr:
                        for t in ev.args:
                            subterms(t, seen)
                        if ev.kind == 'loop':
                            scan([(q[2], q[1]) for q in self.loops[ev.x].conts], None)
            scan([(s, trace_list(s.trace, H.trace)) for s in c + [x[1] for x in e] + r], None)
            for t in seen:
                if t.op == 'sel' and t.a[0] in part and t.a[1] is not part[t.a[0]][0]:
                    part.pop(t.a[0])
            for sym, (i, init) in part.items():
                sub1[sym] = mk('lvp', lid, sym.a[1], init, i)
            if part:
                H, r, c, e = rerun()
        info = LoopInfo()
        info.id = lid
        info.k = k
        info.site = self.site(fr, fr.f['blocks'][L.head]['sp'])
        info.fn = fr.f['d']
        info.pre = S
        info.head = H
        info.leaves = []
        fills = {}
        for (a, p), init in leaves.items():
            sym = mk('lv', lid, C(leafid(a, p)))
            ups = [getleaf(self.base(s, a), p) for s in c]
            if (a, p) in ind:
                info.leaves.append(('ind', (a, p), init, ind[(a, p)][2], ups))
            else:
                sym = sub1.get(sym, sym)
                info.leaves.append(('lv', (a, p), init, sym, ups))
                # array fill: lv := sto(lv, k-index, body(k))
                if ups and all(u.op == 'sto' and u.a[0] is sym for u in ups) and len(set(ups)) == 1:
                    fills[sym] = (ups[0].a[1], ups[0].a[2], init)
        # new storage filled from its start, one equal element per iteration
        for (a, p), init in leaves.items():
            sym = mk('lv', lid, C(leafid(a, p)))
            sym = sub1.get(sym, sym)
            f = fills.get(sym)
            if f is None or a.op != 'heap' or p or f[0] is not k or init is not mk('val', a):
                continue
            if any(t.op in ('lv', 'lvp', 'k') for t in subterms(f[1])):
                continue
            # every iteration begins with k < n: a loop left when that is false has run n times
            ns = [t.a[3] for t, v in c[0].facts.items() if v == 1 and t.op == 'op' and t.a[0] == 'ult' and t.a[2] is k and t not in H.facts
                  and not any(x.op in ('lv', 'lvp', 'k') and x.a[0] is lid for x in subterms(t.a[3])) and all(s.facts.get(t) == 1 for s in c)]
            for s in r + [x[1] for x in e]:
                w = s.mem.get(a)
                # the last iteration may end before it is back at the head
                last = w is not None and w.op == 'sto' and w.a[0] is sym and w.a[1] is k and w.a[2] is f[1]
                if w is not sym and not last:
                    continue
                s.mem[a] = mk('rep', f[1], add(64, k, C(1)) if last else k)
                runs = [n for n in ns if s.facts.get(ops.ult(64, k, n)) == 0]
                if not runs:
                    # left when a counter that goes down by one is 0
                    runs = [n for n in (add(64, t, k) for t, v in s.facts.items() if v == 0 and isinstance(t, T) and t.op == 'poly' and k in subterms(t))
                            if not any(x.op in ('lv', 'lvp', 'k') and x.a[0] is lid for x in subterms(n))]
                if runs:
                    for q, v in list(s.mem.items()):
                        s.mem[q] = subst(v, {k: runs[0]})
        info.conts = [(dict(s.facts), trace_list(s.trace, H.trace), s) for s in c]
        info.exits = len(e) + len(r)
        self.loops[lid] = info
        return r, e

    def merge(self, sts):
        """join states that differ only in facts"""
        if len(sts) < 2 or len(sts) > 400:
            return sts
        out = []
        for s in sts:
            for t in out:
                if s.trace is t.trace and s.n == t.n and s.scope is t.scope and s.mem == t.mem:
                    join_facts(t, s)
                    break
            else:
                out.append(s)
        return out

    # ---- calls
    def call(self, st, fr, b, fid, args, tys, sp, dty=None):
        f = self.p.fns[fid]
        sm = self.summaries.get(fid)
        if sm is not None:
            self.visited.add(fid)
            return sm(self, Ctx(self, st, fr, b, f, fid, args, tys, sp, dty))
        pm = self.primmemo.get(fid, 0)
        if pm == 0:
            pm = self.primmemo[fid] = self.prims.lookup(f)
        if pm is not None:
            r = pm(self, Ctx(self, st, fr, b, f, fid, args, tys, sp, dty))
            if r is not NotImplemented:
                return r
        if 'blocks' not in f:
            if f['kind'] == 'virtual' and args and args[0].op == 'dynptr' and tys[0] is not None:
                t = self.p.virtual(args[0].a[1].a[0], self.p.pointee(tys[0]), f.get('vidx'))
                if t is not None:
                    return self.call(st, fr, b, t, [args[0].a[0]] + list(args[1:]), [self.p.fns[t]['locals'][1] if 'locals' in self.p.fns[t] else None] + list(tys[1:]), sp, dty)
            return self.opaque_call(st, fr, f['d'], args, tys, dty, sp, f)
        if self.prims.sealed(self, f['d'], tys):
            # the type is modelled as a whole: its own fields mean nothing here
            return self.opaque_call(st, fr, f['d'], args, tys, dty, sp, f)
        return self.inline(st, fr, b, fid, args, tys, sp)

    def inline(self, st, fr, b, fid, args, tys, sp, tag=0):
        f = self.p.fns[fid]
        self.visited.add(fid)
        nf = Frame()
        nf.f = f
        nf.cfg = self.p.cfg(fid)
        nf.parent = fr
        nf.callsite = sp
        nf.depth = fr.depth + 1 if fr is not None else 0
        if nf.depth > 120:
            raise Stop('recursion in ' + f['d'])
        nf.key = mk('fr', fr.key if fr is not None else 0, b, fid, tag)
        na = f['nargs']
        if is_closure_body(f) and f['spread'] is None and not (len(args) == na and na == 1 and False):
            # rust-call: untuple the last argument
            if len(args) == 2:
                tup, tt = args[1], tys[1] if len(tys) > 1 else None
                n = na - 1
                rest = []
                if n and tt is None:
                    # synthesised call: the tuple is given as a python tuple
                    rest = list(tup) if isinstance(tup, tuple) else [tup]
                elif n:
                    fts = self.p.fields(tt)
                    er = None if self.p.zst(tt) else self.p.erased(tt)
                    for i in range(n):
                        if self.p.zst(fts[i]):
                            rest.append(UNIT)
                        elif er is not None:
                            rest.append(tup)
                        else:
                            rest.append(proj(tup, ('f', i, len(fts))))
                args = [args[0]] + rest
        for i, v in enumerate(args):
            if i + 1 < len(f['locals']) and not self.p.zst(f['locals'][i + 1]):
                st.mem[mk('loc', nf.key, i + 1)] = v
        rets, conts, exits = self.region(nf, 0, st, None)
        out = []
        rt = f['locals'][0]
        for s in rets:
            rv = UNIT if self.p.zst(rt) else s.mem.get(mk('loc', nf.key, 0), UNDEF)
            for i in range(len(f['locals'])):
                s.mem.pop(mk('loc', nf.key, i), None)
            out.append((s, rv))
        if len(out) > 1 and not self.nomerge:
            out = self.merge_rets(out)
        return out

    def merge_rets(self, rs):
        if len(rs) > 300:
            return rs
        out = []
        for s, r in rs:
            for t, q in out:
                if r is q and s.trace is t.trace and s.n == t.n and s.scope is t.scope and s.mem == t.mem:
                    join_facts(t, s)
                    break
            else:
                out.append((s, r))
        return out

    def call_value(self, cx, fval, fty, args, st=None, tag=0):
        """call a closure / fn item value with the given argument terms (python list)"""
        st = st or cx.st
        P = self.p
        t = fty
        d = P.tys[t]
        v = fval
        while d['t'] in ('ref', 'ptr'):
            t = d['e']
            if not P.zst(t):
                a, p, _ = self.deref(v, t)
                v = self.load(st, a, p, t)
            else:
                v = UNIT
            d = P.tys[t]
        if d['t'] == 'fndef':
            fid = d['fn']
            return self.call(st, cx.fr, ('cb', cx.b, tag), fid, list(args), [None] * len(args), cx.sp)
        if d['t'] == 'closure':
            fid = d['fn']
            f = P.fns[fid]
            # the closure local: by value for FnOnce, else by reference
            lt = f['locals'][1]
            if P.tys[lt]['t'] == 'ref':
                if P.zst(t):
                    cv = UNITPTR
                else:
                    al = mk('clo', cx.fr.key, C(cx.b if isinstance(cx.b, int) else 0), v)
                    if fval.op == 'ptr' and P.tys[fty]['t'] in ('ref', 'ptr'):
                        cv = fval
                    else:
                        st.mem[al] = v
                        cv = ptr(al, (), None)
            else:
                cv = v
            if 'blocks' not in f:
                raise Stop('closure without body')
            return self.inline(st, cx.fr, ('cb', cx.b, tag), fid, [cv, tuple(args)], [None, None], cx.sp)
        if d['t'] == 'fnptr' and v.op == 'fnptr':
            return self.call(st, cx.fr, ('cb', cx.b, tag), v.a[0], list(args), [None] * len(args), cx.sp)
        raise Stop('call of ' + P.name(fty))

    def opaque_call(self, st, fr, name, args, tys, dty, sp, f=None):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        P = self.p
        res = st.fresh() if dty is not None and not P.zst(dty) else UNIT
        st.emit(Ev('call', name, [a for a in args], res, self.site(fr, sp)))
        for i, (a, t) in enumerate(zip(args, tys)):
            if t is None:
                continue
            d = P.tys[P.core(t)]
            if d['t'] in ('ref', 'ptr') and d['m'] and not P.zst(d['e']):
                al, p, m = self.deref(a, d['e'])
                if al.op in ('const', 'unit'):
                    continue
                if m is not None and p and p[-1][0] == 'i':
                    self.store(st, al, p[:-1], mk('hv', st.scope, st.n, i))
                else:
                    self.store(st, al, p, mk('hv', st.scope, st.n, i))
        st.n += 1
        return [(st, res)]

    # ---- entry
    def run_root(self, name, args=None, setup=None):
        """analyse a root with opaque arguments -> list of (kind, state, value/msg, site)"""
        fid = self.p.roots[name]
        f = self.p.fns[fid]
        forget_hints()
        self.outs = []
        st = new_state()
        vals, tys = [], []
        for i in range(f['nargs']):
            ty = f['locals'][i + 1]
            tys.append(ty)
            v = args[i] if args and i < len(args) and args[i] is not None else mk('sym', 'arg%d' % i)
            if v.op == 'sym' and v.ty is None:
                hint(v, self.tyhint(ty))
            vals.append(UNIT if self.p.zst(ty) else v)
        if setup:
            setup(st)
        rs = self.inline(st, None, 0, fid, vals, tys, f['sp'])
        res = [('ret', s, v, None) for s, v in rs]
        res += [o for o in self.outs]
        return res


class Ctx:
    __slots__ = ('I', 'st', 'fr', 'b', 'f', 'fid', 'args', 'tys', 'sp', 'dty')

    def __init__(self, *a):
        self.I, self.st, self.fr, self.b, self.f, self.fid, self.args, self.tys, self.sp, self.dty = a

    def site(self):
        return self.I.site(self.fr, self.sp)

    def ret(self, v):
        return [(self.st, v)]


UNITLOC = mk('unit')
UNITPTR = ptr(UNITLOC, (), None)


def is_closure_body(f):
    return f['kind'] == 'item' and f['d'].rsplit('::', 1)[-1].startswith('{closure#')


def join_facts(t, s):
    common = {k: v for k, v in t.facts.items() if s.facts.get(k) == v}
    both = tuple(g for g in t.alts if g in s.alts)
    ways = []
    for x in (t, s):
        own = [g for g in x.alts if g not in both]
        d = {k: v for k, v in x.facts.items() if k not in common}
        # (several groups of one state: only the facts all of them share)
        ways += [{**a, **d} for a in own[0]] if len(own) == 1 else [d]
    t.alts = both + ((tuple(ways),) if all(ways) and len(ways) <= 12 else ())
    t.facts = common
    t.neg = {k: v & s.neg[k] for k, v in t.neg.items() if k in s.neg}
    iv = {}
    for k, (l, h) in t.iv.items():
        if k in s.iv:
            l2, h2 = s.iv[k]
            iv[k] = (min(l, l2), max(h, h2))
    t.iv = iv


def cdiff(y, q):
    """two different terms that differ only by an integer constant"""
    if y is q:
        return False
    if y.op == 'c' and q.op == 'c':
        return True
    if y.op == 'poly' or q.op == 'poly':
        w = y.a[0] if y.op == 'poly' else q.a[0]
        if y.op in ('ptr', 'agg') or q.op in ('ptr', 'agg'):
            return False
        return sub(w, y, q).op == 'c'
    return False


def coef(x, k):
    if x is k:
        return 1
    if x.op == 'poly':
        for m, c in x.a[1]:
            if m == (k,):
                return c
    return 0


_leafids = {}


def leafid(a, p):
    i = _leafids.get((a, p))
    if i is None:
        i = _leafids[(a, p)] = len(_leafids)
    return i


OPQ = ('val', 'fld', 'vfld', 'sel', 'ev', 'sym', 'hv')


def diff(v, w, path, a, out, lid):
    """record the leaves where w differs from v"""
    if v is w:
        return
    if w.op == 'agg' and (v.op == 'agg' and v.a[0] == w.a[0] and len(v.a) == len(w.a) or w.a[0] == 0 and len(w.a) > 1 and v.op in OPQ):
        n = len(w.a) - 1
        for i in range(n):
            e = ('f', i, n) if w.a[0] == 0 else i + 1
            diff(proj(v, e) if w.a[0] == 0 else v.a[i + 1], w.a[i + 1], path + (e,), a, out, lid)
        return
    if v.op == 'arr' and w.op == 'arr' and len(v.a) == len(w.a):
        for i in range(len(v.a)):
            diff(v.a[i], w.a[i], path + (i,), a, out, lid)
        return
    x, y = slice_parts(v, w), slice_parts(w, None)
    if x is not None and y is not None and x[0] is y[0] and x[1] == y[1] and x[3] is y[3]:
        # the front of a slice moves, its end stays
        out[(a, path + (('s', x[0], x[1], x[3]),))] = x[2]
        return
    if v.op == 'ptr' and w.op == 'ptr' and v.a[0] is w.a[0] and len(v.a[1]) == len(w.a[1]):
        ok = True
        for x, y in zip(v.a[1], w.a[1]):
            if x != y and not (x[0] == 'i' and y[0] == 'i'):
                ok = False
        if (v.a[2] is None) != (w.a[2] is None):
            ok = False
        if ok:
            for j, (x, y) in enumerate(zip(v.a[1], w.a[1])):
                if x != y:
                    diff(x[1], y[1], path + (('p', j),), a, out, lid)
            if v.a[2] is not w.a[2]:
                diff(v.a[2], w.a[2], path + ('m',), a, out, lid)
            return
    if v.op == 'lv' and v.a[0] is lid:
        return
    out[(a, path)] = v


def slice_parts(v, w):
    """(allocation, place, start, end) of a slice that starts at an element; an opaque `v` is seen as one if `w` points into it"""
    if v.op == 'ptr':
        if v.a[2] is None or not v.a[1] or v.a[1][-1][0] != 'i':
            return None
        i = v.a[1][-1][1]
        return v.a[0], v.a[1][:-1], i, add(64, i, v.a[2])
    if w is not None and w.op == 'ptr' and w.a[0] is mk('deref', v) and len(w.a[1]) == 1 and w.a[2] is not None:
        return w.a[0], (), C0, mk('meta', v)
    return None


def getleaf(v, path):
    for e in path:
        if not isinstance(e, int) and e[0] == 's':
            if v.op != 'ptr' and e[1] is mk('deref', v) and e[2] == () and e[3] is mk('meta', v):
                return C0
            x = slice_parts(v, None)
            return x[2] if x is not None and x[0] is e[1] and x[1] == e[2] and x[3] is e[3] else UNDEF
        if isinstance(e, int):
            if v.op == 'agg' or v.op == 'arr':
                if e < len(v.a):
                    v = v.a[e]
                else:
                    return UNDEF
            else:
                return UNDEF
        elif e[0] == 'f':
            v = proj(v, e)
        elif e == 'm':
            v = v.a[2] if v.op == 'ptr' and v.a[2] is not None else UNDEF
        else:
            v = v.a[1][e[1]][1] if v.op == 'ptr' and e[1] < len(v.a[1]) and v.a[1][e[1]][0] == 'i' else UNDEF
        if v is UNDEF:
            return v
    return v


def putleaf(v, path, j, new):
    if j == len(path):
        return new
    e = path[j]
    if isinstance(e, int):
        a = list(v.a)
        a[e] = putleaf(a[e], path, j + 1, new)
        return agg(a[0], a[1:]) if v.op == 'agg' else arr(a)
    if e[0] == 'f':
        fs = [proj(v, ('f', i, e[2])) for i in range(e[2])]
        fs[e[1]] = putleaf(fs[e[1]], path, j + 1, new)
        return agg(0, fs)
    if e == 'm':
        return ptr(v.a[0], v.a[1], putleaf(v.a[2], path, j + 1, new))
    if e[0] == 's':
        return ptr(e[1], e[2] + (('i', new),), sub(64, e[3], new))
    pth = list(v.a[1])
    pth[e[1]] = ('i', putleaf(pth[e[1]][1], path, j + 1, new))
    return ptr(v.a[0], tuple(pth), v.a[2])


def step_of(u, sym):
    """(width, step) when u = sym + constant"""
    if u is sym:
        return 64, C0
    if u.op == 'poly':
        w = u.a[0]
        d = sub(w, u, sym)
        if d.op == 'c':
            return w, d
    return None
