"""The protobuf encoder: which functions are varint coders, the pieces a call appends, and the
messages they form."""
from .textlines import *
from engine import bufs
from engine.interp import new_state, Stop, Interp, setp, trace_list

HOME = '/repo/prometheus-proto/'


# ---------------------------------------------------------------- varints
def classes(w):
    """every value of w bits, by bit length: (setup, value term, bit length)"""
    for n in range(w + 1):
        yield (C0 if n == 0 else S('v'), n)


def bits(t, n, w):
    """t as a list of bits, least significant first: 0, 1 or ('v', k); v has bit length n. None: unknown"""
    if t.op == 'c':
        return [t.a[0] >> i & 1 for i in range(w)]
    if t is S('v'):
        return [1 if k == n - 1 else 0 if k >= n else ('v', k) for k in range(w)]
    if t.op == 'op':
        o = t.a[0]
        if o in ('trunc', 'zext'):
            b = bits(t.a[3], n, t.a[1])
            return None if b is None else (b + [0] * w)[:w]
        if o in ('and', 'or', 'xor'):
            x, y = bits(t.a[2], n, w), bits(t.a[3], n, w)
            if x is None or y is None:
                return None
            out = []
            for a, b in zip(x, y):
                if o == 'and':
                    r = 0 if a == 0 or b == 0 else b if a == 1 else a if b == 1 or a == b else None
                elif o == 'or':
                    r = 1 if a == 1 or b == 1 else b if a == 0 else a if b == 0 or a == b else None
                else:
                    r = b if a == 0 else a if b == 0 else 0 if a == b else None
                if r is None:
                    return None
                out.append(r)
            return out
        if o in ('shr', 'div') and t.a[3].op == 'c':
            k = t.a[3].a[0]
            if o == 'div':
                if k & (k - 1) or not k:
                    return None
                k = k.bit_length() - 1
            x = bits(t.a[2], n, w)
            return None if x is None else (x[k:] + [0] * w)[:w]
        if o == 'mod' and t.a[3].op == 'c':
            k = t.a[3].a[0]
            if k & (k - 1) or not k:
                return None
            x = bits(t.a[2], n, w)
            return None if x is None else (x[:k.bit_length() - 1] + [0] * w)[:w]
    if t.op == 'poly':
        # a sum of parts with no bit in common
        out = [0] * w
        for m, c in t.a[1]:
            if not m:
                p = [c >> i & 1 for i in range(w)]
            elif len(m) == 1 and c & (c - 1) == 0:
                p = bits(m[0], n, w)
                if p is None:
                    return None
                p = ([0] * (c.bit_length() - 1) + p)[:w]
            else:
                return None
            for i in range(w):
                if p[i] != 0 and out[i] != 0:
                    return None
                out[i] = out[i] if p[i] == 0 else p[i]
        return out
    return None


def vlen(n):
    return max(1, -(-n // 7))


def spec(n):
    """the bytes of the varint of a number of bit length n"""
    b = bits(S('v') if n else C0, n, 70)
    return [b[7 * j:7 * j + 7] + [1 if j < vlen(n) - 1 else 0] for j in range(vlen(n))]


def coder(P, fid):
    """('enc'|'len', width) by the signature of a function, or None"""
    f = P.fns[fid]
    if 'blocks' not in f or f['kind'] != 'item' or not P.files.get(f['sp'][0], '').startswith(HOME):
        return None
    tys = [f['locals'][i + 1] for i in range(f['nargs'])]
    rt = f['locals'][0]
    if not tys:
        return None
    ii = P.int_info(tys[0]) if P.name(tys[0]) in ('u64', 'u32', 'usize') else None
    if ii is None:
        return None
    if len(tys) == 1 and P.name(rt) in ('usize', 'u32', 'u64', 'u8'):
        return 'len', ii[1]
    if len(tys) == 2 and P.zst(rt) and P.tys[P.core(tys[1])]['t'] == 'ref':
        class X:
            p = P
        k = bufs.kind(X, P.tys[P.core(tys[1])]['e'])
        if k in ('buf', 'slice'):
            return k, ii[1]
    return None


def try_coder(P, fid, k, w):
    """why the function is not a varint coder, or None"""
    f = P.fns[fid]
    for v, n in classes(w):
        I = Interp(P)
        I.maxsteps = 20000
        st = new_state()
        if n:
            I.setiv(st, v, 1 << n - 1, (1 << n) - 1)
        args = [v]
        if k == 'buf':
            pl = mk('heap', C(0), 'sink')
            st.mem[pl] = bufs.BNEW
            args.append(ptr(pl, (), None))
        elif k == 'slice':
            pl, al = mk('heap', C(0), 'sink'), mk('heap', C(0), 'bytes')
            st.mem[al] = bytes_term(bytes(10))
            st.mem[pl] = I.mkslice(al, (), C0, C(10))
            args.append(ptr(pl, (), None))
        try:
            rs = I.inline(st, None, 0, fid, args, [f['locals'][i + 1] for i in range(f['nargs'])], f['sp'])
        except (Stop, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            return 'could not be followed: %s' % e
        if len(rs) != 1 or I.outs or I.unknown:
            return 'has %d outcomes for numbers of %d bits' % (len(rs) + len(I.outs), n)
        s, r = rs[0]
        if k == 'len':
            lo, hi = I.interval(s, r)
            if lo != hi or lo != vlen(n):
                return 'gives %s for numbers of %d bits, whose varint has %d bytes' % (lo if lo == hi else '%d to %d' % (lo, hi), n, vlen(n))
            if any(e for e in trace_list(s.trace)):
                return 'has other effects'
            continue
        got = []
        for e in trace_list(s.trace):
            if e.kind == 'out' and e.name in ('append', 'over'):
                x = e.args[1]
                got += [C(b) for b in x.a[0]] if x.op == 'bytes' else list(x.a) if x.op == 'arr' else [x]
            else:
                return 'has other effects'
        want = spec(n)
        if len(got) != len(want):
            return 'writes %d bytes for numbers of %d bits, whose varint has %d' % (len(got), n, len(want))
        for i, (g, x) in enumerate(zip(got, want)):
            b = bits(g, n, 8)
            if b != x:
                return 'byte %d of the varint of numbers of %d bits is %s' % (i, n, show(g)[:80])
    return None


def varint(v):
    out = bytearray()
    while v >= 128:
        out.append(v & 127 | 128)
        v >>= 7
    out.append(v)
    return bytes(out)


def sm_len(I, cx):
    v = cx.args[0]
    return cx.ret(C(len(varint(v.a[0]))) if v.op == 'c' else ops.op('vlen', v))


def sm_enc(I, cx):
    v = cx.args[0]
    x = bytes_term(varint(v.a[0])) if v.op == 'c' else ops.op('vi', v)
    return [(s, UNIT) for s in bufs.sink(I, cx, cx.args[1], cx.tys[1], x)]


def coders(cx):
    """functions of the protobuf crate that are varint coders -> {fid: transfer function}; {fid: reason} for the others"""
    if not hasattr(cx, 'coders_'):
        P = cx.P
        good, bad = {}, {}
        for fid in P.fns:
            c = coder(P, fid)
            if c is None:
                continue
            why = try_coder(P, fid, *c)
            if why is None:
                good[fid] = sm_len if c[0] == 'len' else sm_enc
                cx.visited.add(fid)
            else:
                bad[fid] = why
        cx.coders_ = good, bad
        cx.summaries = good
        cx.maxsteps = 150000
    return cx.coders_


def coder_notes(cx):
    good, bad = coders(cx)
    P = cx.P
    return '; '.join('%s is not a varint coder: it %s' % (P.fns[f]['d'].rsplit('::', 1)[-1], w) for f, w in sorted(bad.items())[:3])


# ---------------------------------------------------------------- what a call appends
def stream(I, st, trace, loc=None, splice=True):
    """[('p', piece, site) | ('loop', id, [(facts, stream, state, index)], site)] appended to the one buffer"""
    from rules.errors import fallible
    out = []
    for e in trace:
        if e.kind == 'loop':
            L = I.loops[e.x]
            bodies = []
            for i, (fx, tr, s) in enumerate(L.conts):
                if any(fallible(x) and fx.get(ops.op('discr', x.res)) == 1 for x in tr):
                    continue
                bodies.append((fx, stream(I, s, tr), s, i))
            if any(b[1] for b in bodies):
                out.append(('loop', e.x, bodies, e.site))
        elif e.kind == 'out' and e.name == 'append':
            for y in bufs.pieces(e.args[1]):
                if out and out[-1][0] == 'p' and out[-1][1].op == 'bytes' and y.op == 'bytes':
                    out[-1] = ('p', bytes_term(out[-1][1].a[0] + y.a[0]), out[-1][2])
                else:
                    out.append(('p', y, e.site))
        elif e.kind == 'out':
            raise Bad('bytes already written are changed', e.site)
    return out


def canon(I, lid):
    """substitution that names the loop's own counters canonically (equal loops get equal names)"""
    L = I.loops[lid]
    m = {}
    for l in L.leaves:
        if l[4] and all(len(l[4]) == len(L.conts) and x is add(64, l[3], C(1)) for x in l[4]):
            m[l[3]] = mk('k', 'counter', l[2])
    return m


def newfacts(L, fx, m):
    out = []
    for k, v in fx.items():
        if L.head.facts.get(k) == v:
            continue
        k2 = subst(k, m)
        if contains(k2, lambda x: x.op == 'lv'):
            continue
        out.append((k2, v))
    return frozenset(out)


class Sizes:
    """sizes of what loops write, compared with what loops add up"""
    def __init__(self, I, st):
        self.I, self.st = I, st
        self.sub = {}
        for lid, L in I.loops.items():
            m = canon(I, lid)
            for l in L.leaves:
                if l[3] in m or l[0] == 'ind':
                    continue
                steps = []
                for i, (fx, tr, s) in enumerate(L.conts):
                    d = sub(64, l[4][i], l[3])
                    d = subst(d, m)
                    if contains(d, lambda x: x.op == 'lv'):
                        break
                    steps.append((newfacts(L, fx, m), d))
                else:
                    if len(steps) == len(L.conts):
                        self.sub[l[3]] = (l[2], self.key(lid, steps))

    def key(self, lid, steps):
        """the sum over all iterations; equal for loops with equal trips and equal sizes under equal facts"""
        if all(d is C0 for _, d in steps):
            return C0
        g = {}
        for fx, d in steps:
            g.setdefault(fx, set()).add(d)
        if any(len(ds) > 1 for ds in g.values()) or any(not any(contains(k, lambda x: x.op == 'k' and x.a[0] == 'counter') for k, v in fx) for fx in g):
            return mk('meta', mk('loopsum', lid))
        return mk('meta', mk('loopsum', tuple(sorted(((tuple(sorted(((k.h, v) for k, v in fx))), next(iter(ds)).h) for fx, ds in g.items())))))

    def norm(self, t):
        for _ in range(4):
            m = {}
            for sym, (init, k) in self.sub.items():
                if contains(t, lambda x: x is sym):
                    m[sym] = add(64, init, k)
            if not m:
                return t
            t = subst(t, m)
        return t

    def of(self, it):
        if it[0] == 'p':
            return self.norm(bufs.size(it[1]))
        _, lid, bodies, site = it
        L = self.I.loops[lid]
        m = canon(self.I, lid)
        steps = []
        for fx, s, st, i in bodies:
            n = C0
            for x in s:
                n = add(64, n, self.of(x))
            steps.append((newfacts(L, fx, m), subst(n, m)))
        return self.key(lid, steps)

    def total(self, its):
        n = C0
        for it in its:
            n = add(64, n, self.of(it))
        return n


# ---------------------------------------------------------------- fields
class Field:
    def __init__(self, tag, wt, val, site, items=None):
        self.tag, self.wt, self.val, self.site, self.items = tag, wt, val, site, items

    def __repr__(self):
        return 'Field(%s,%s,%s)' % (self.tag, self.wt, show(self.val) if isinstance(self.val, T) else self.items)


class Rd:
    def __init__(self, items, sz):
        self.x = list(items)
        self.sz = sz

    def site(self):
        return self.x[0][-1] if self.x else None

    def byte(self):
        if not self.x or self.x[0][0] != 'p' or self.x[0][1].op != 'bytes':
            return None
        k, t, s = self.x[0]
        b = t.a[0][0]
        self.x[:1] = [(k, bytes_term(t.a[0][1:]), s)] if len(t.a[0]) > 1 else []
        return b

    def varint(self):
        """a number (term)"""
        if self.x and self.x[0][0] == 'p' and self.x[0][1].op == 'op' and self.x[0][1].a[0] == 'vi':
            return self.sz.norm(self.x.pop(0)[1].a[1])
        site = self.site()
        v, n = 0, 0
        while True:
            b = self.byte()
            if b is None:
                raise Bad('a varint is expected%s' % (', not ' + self.shown() if n == 0 else ' to go on'), site)
            v |= (b & 127) << 7 * n
            n += 1
            if b < 128:
                return C(v)
            if n > 10:
                raise Bad('a varint of more than ten bytes', site)

    def shown(self):
        return 'the end' if not self.x else show(self.x[0][1])[:100] if self.x[0][0] == 'p' else 'a loop'

    def take(self, n):
        """the items that make up exactly n bytes"""
        out = []
        site = self.site()
        want = n
        while n is not C0:
            if not self.x:
                raise Bad('a length prefix says %s bytes, but only %s follow' % (show(want)[:120], show(sub(64, want, n))[:120]), site)
            it = self.x[0]
            z = self.sz.of(it)
            if z is n:
                out.append(self.x.pop(0))
                return out
            if it[0] == 'p' and it[1].op == 'bytes' and n.op == 'c':
                k = n.a[0]
                bs = it[1].a[0]
                if k < len(bs):
                    out.append(('p', bytes_term(bs[:k]), it[2]))
                    self.x[0] = ('p', bytes_term(bs[k:]), it[2])
                    return out
            d = sub(64, n, z)
            if not bufs.nonneg(d):
                if it[0] == 'p' and it[1].op == 'bytes':
                    # a part of the literal: as many bytes as are left for it after what must follow
                    pass
                raise Bad('a length prefix says %s bytes, but what follows is %s bytes long: %s' % (show(want)[:160], show(z)[:100], show(it[1])[:80] if it[0] == 'p' else 'a loop'), it[-1])
            out.append(self.x.pop(0))
            n = d
        return out


def fields(items, sz):
    r = Rd(items, sz)
    out = []
    while r.x:
        if r.x[0][0] == 'loop':
            _, lid, bodies, site = r.x.pop(0)
            out.append(Field('loop', None, None, site, [(fx, fields(s, sz), st, i, lid) for fx, s, st, i in bodies]))
            continue
        site = r.site()
        k = r.varint()
        if k.op != 'c':
            raise Bad('a field key is expected, not %s' % show(k)[:100], site)
        tag, wt = k.a[0] >> 3, k.a[0] & 7
        if tag == 0:
            raise Bad('field number 0', site)
        if wt == 0:
            out.append(Field(tag, 0, r.varint(), site))
        elif wt == 1:
            if r.x and r.x[0][0] == 'p' and r.x[0][1].op == 'op' and r.x[0][1].a[0] == 'le' and r.x[0][1].a[1] == 64:
                out.append(Field(tag, 1, r.x.pop(0)[1].a[2], site))
            else:
                b = r.take(C(8))
                if len(b) != 1 or b[0][1].op != 'bytes':
                    raise Bad('eight bytes of a double are expected, not %s' % '+'.join(show(x[1])[:200] for x in b), site)
                out.append(Field(tag, 1, F(int.from_bytes(b[0][1].a[0], 'little')), site))
        elif wt == 2:
            out.append(Field(tag, 2, None, site, r.take(r.varint())))
        else:
            raise Bad('wire type %d' % wt, site)
    return out


def text(f):
    """tokens of a string field"""
    out = []
    for it in f.items:
        if it[0] != 'p':
            raise Bad('a loop within a string', f.site)
        out.append(it[1].a[0] if it[1].op == 'bytes' else it[1])
    return out


def sub_fields(f, sz):
    if f.wt != 2:
        raise Bad('field %s is not a message' % f.tag, f.site)
    return fields(f.items, sz)


def only(fs, allowed, what):
    """{tag: [Field]}: each with the given wire type"""
    out = {}
    for f in fs:
        if f.tag not in allowed:
            raise Bad('%s has a field %s' % (what, f.tag), f.site)
        if f.wt != allowed[f.tag]:
            raise Bad('field %s of %s has wire type %s' % (f.tag, what, f.wt), f.site)
        out.setdefault(f.tag, []).append(f)
    return out


def one(fs, tag, what, site):
    if len(fs.get(tag, ())) != 1:
        raise Bad('%s has %d fields %d' % (what, len(fs.get(tag, ())), tag), site)
    return fs[tag][0]


def prun(cx, root, args=None, setup=None, tag=None):
    coders(cx)
    return cx.run(root, args, setup, tag)


# ---------------------------------------------------------------- one sample
KINDS = {'counter': 3, 'gauge': 2, 'fgauge': 2}
ENUM = {'counter': 0, 'gauge': 1, 'fgauge': 1}


class Metric:
    """a parsed metric: labels [(name tokens, value tokens, field)], loops of them, the kind field and its value"""
    def __init__(self, fs, sz, site):
        self.parts = []
        kind = []
        for f in fs:
            if f.tag == 'loop':
                self.parts.append(('loop', [(fx, self.labels(b, sz), st) for fx, b, st, i, lid in f.items], f, f.items[0][4] if f.items else None))
            elif f.tag == 1:
                self.parts.append(('label', self.label(f, sz), f))
            elif f.tag in (2, 3):
                kind.append(f)
            else:
                raise Bad('a metric has a field %s' % f.tag, f.site)
        if len(kind) != 1:
            raise Bad('a metric has %d values' % len(kind), site)
        self.kind = kind[0]
        v = only(sub_fields(kind[0], sz), {1: 1}, 'the value of a metric')
        self.value = one(v, 1, 'the value of a metric', kind[0].site).val

    def label(self, f, sz):
        d = only(sub_fields(f, sz), {1: 2, 2: 2}, 'a label pair')
        return text(one(d, 1, 'a label pair', f.site)), text(one(d, 2, 'a label pair', f.site))

    def labels(self, fs, sz):
        out = []
        for f in fs:
            if f.tag != 1:
                raise Bad('a metric has fields %s in a loop over labels' % f.tag, f.site)
            out.append(self.label(f, sz))
        return out


def sample_paths(cx, root):
    """[(path, Sizes, items appended)] of a sample root"""
    r = prun(cx, root)
    if r is None:
        return []
    out = []
    for p in successes(r):
        out.append((p, Sizes(r.I, p.st), r.I))
    if not out:
        cx.ob('success', root, False, 'no path succeeds')
    return out


def own(I, p):
    """events of the path without those on buffers of its own"""
    arg = mk('deref', A[0])

    def go(tr):
        return [e for e in tr if e.kind != 'out' or e.args[0] is None or base_is(e.args[0], arg)]
    return go(p.trace)


def base_is(loc, al):
    return loc.op == 'ptr' and loc.a[0] is al


SAMPLES = r'proto::(g0|nl|g1|g1i|g1f|g2|g3|gn)::root_(counter|gauge|fgauge)'


# ---------------------------------------------------------------- sequences of calls
class Step:
    """one call from one state of the encoder"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Fam:
    """a family that has been announced: what its message must say"""
    def __init__(self, name, help=None, typ=None, n=0, alias=()):
        self.name, self.help, self.typ, self.n, self.alias = name, help, typ, n, tuple(alias)

    def key(self):
        return (self.name, self.help, self.typ, min(self.n, 1), self.alias)

    def names(self):
        return (self.name,) + self.alias


SMP = S('samples')


def message(it, sz):
    """[fields] of the messages in what is written"""
    r = Rd(it, sz)
    out = []
    while r.x:
        site = r.site()
        n = r.varint()
        out.append((fam_fields(r.take(n), sz), site))
    return out


def fam_fields(its, sz):
    """fields of a family, the samples collected so far being one opaque piece"""
    out, cur = [], []
    for it in its:
        if it[0] == 'p' and it[1] is SMP:
            out += fields(cur, sz)
            out.append(Field(4, 2, SMP, it[2], []))
            cur = []
        else:
            cur.append(it)
    return out + fields(cur, sz)


class Machine:
    """every state the encoder can be in between calls, from the state of a new one"""
    def __init__(self, cx, two):
        self.cx, self.two = cx, two
        self.steps = []
        self.errors = []       # (rule, inst, msg, site)
        r = prun(cx, 'proto::root_new')
        self.ok = False
        if r is None or len(r.ret) != 1:
            self.errors.append(('new', 'proto::root_new', 'a new encoder has no single state', None))
            return
        self.new = r.ret[0].val
        self.enc = Encoder(self.new, lambda v: v is S('arg0'))
        self.bufs = [p for p, v in self.enc.fields if v is bufs.BNEW or v.op == 'op' and v.a[0] in ('app', 'ovw')]
        if len(self.enc.writer) != 1 or not self.bufs:
            self.errors.append(('new', 'proto::root_new', 'the writer or the buffer of a new encoder was not found', None))
            return
        self.ok = True
        self.names = 0
        self.explore()

    def nm(self, i):
        s = S('name%d' % i)
        return (ops.op('px', 'px_name2_a', s), ops.op('px', 'px_name2_b', s)) if self.two else (ops.op('px', 'px_name_bytes', s),)

    def calls(self, fam):
        """(root, args, what) legal after what has been announced"""
        two = '_two' if self.two else ''
        # a fresh name: one not in use
        used = {} if fam is None else set(fam.names())
        i = next(i for i in range(9) if self.nm(i) not in used)
        out = [('proto::root_flush', [], ('flush',)), ('proto::root_help' + two, [S('name%d' % i), S('help%d' % i)], ('help', self.nm(i), S('help%d' % i)))]
        tys = ['two'] if self.two else list(KINDS)
        for t in tys:
            out.append(('proto::root_ty_' + t, [S('name%d' % i)], ('type', self.nm(i), 'counter' if t == 'two' else t)))
            if fam is not None and fam.typ is None:
                j = next(j for j in range(9) if self.nm(j) == fam.name)
                out.append(('proto::root_ty_' + t, [S('name%d' % j)], ('type', fam.name, 'counter' if t == 'two' else t)))
        if fam is not None and fam.typ is not None:
            for t in (KINDS if not self.two else ('counter',)):
                if fam.typ == t:
                    out.append(('proto::g1::root_' + t, [S('name9'), S('cell'), S('labels')], ('sample', t)))
        return out

    def explore(self):
        cx = self.cx
        arg = S('arg0')
        start = (self.new, None)
        self.seen = {self.key(start): start}
        todo = [start]
        while todo:
            V, fam = todo.pop()
            for root, args, what in self.calls(fam):
                tag = ('m', self.two, V, fam and fam.key(), what)
                r = prun(cx, root, [arg] + args, lambda st: st.mem.__setitem__(mk('deref', arg), V), tag)
                if r is None:
                    self.errors.append(('analysable', root, 'inconclusive', None))
                    continue
                for p in r.pan:
                    self.errors.append(('panic', root, 'a legal sequence of calls panics: %s' % (p.val,), p.site))
                for p in r.ret:
                    try:
                        c = self.step(root, V, fam, what, r, p)
                    except Bad as b:
                        self.errors.append(('message', root, str(b), b.site))
                        continue
                    if c is None:
                        continue
                    k = self.key(c)
                    if k not in self.seen:
                        if len(self.seen) > 120:
                            self.errors.append(('states', root, 'the encoder has too many states', None))
                            return
                        self.seen[k] = c
                        todo.append(c)

    def key(self, c):
        V, fam = c
        return (V, fam and fam.key())

    def step(self, root, V, fam, what, r, p):
        from rules.errors import fallible
        failed = any(fallible(e) and p.facts.get(ops.op('discr', e.res)) == 1 for e in p.every())
        sz = Sizes(r.I, p.st)
        msgs = []
        flushed = 0
        for e in p.trace:
            if e.kind == 'px' and e.name == 'px_w_write_all':
                its = [('p', y, e.site) for y in bufs.pieces(e.args[1])]
                msgs += [(fs, s, e) for fs, s in message(its, sz)]
            elif e.kind == 'px' and e.name == 'px_w_flush':
                flushed += 1
            elif e.kind == 'px' and e.name == 'px_w_write':
                raise Bad('write() may write a part of the bytes only', e.site)
            elif e.kind == 'loop' and any(x.kind == 'px' and x.name.startswith('px_w') for fx, tr, s in r.I.loops[e.x].conts for x in tr):
                raise Bad('messages are written in a loop', e.site)
        V2 = p.st.mem.get(mk('deref', S('arg0')), V)
        if what[0] == 'sample':
            V2 = self.fold(V, V2, r, p, sz)
        # names shown to be equal on this path
        eqs = set()
        for k, v in p.facts.items():
            if k.op == 'op' and k.a[0] == 'startswith' and v == 1:
                q = self.same_names(k, sz)
                if q is not None:
                    eqs.add(frozenset(q))
        self.steps.append(Step(root=root, V=V, fam=fam, what=what, msgs=msgs, failed=failed, V2=V2, eqs=eqs, flushed=flushed, path=p, sz=sz, run=r))
        if failed:
            return V2, None
        if what[0] == 'flush':
            return V2, None
        if what[0] == 'help':
            return V2, Fam(what[1], what[2])
        if what[0] == 'type':
            if fam is not None and fam.typ is None and (what[1] == fam.name or frozenset((what[1], fam.name)) in eqs):
                return V2, Fam(fam.name, fam.help, what[2], 0, fam.alias + ((what[1],) if what[1] != fam.name else ()))
            return V2, Fam(what[1], None, what[2])
        return V2, Fam(fam.name, fam.help, fam.typ, fam.n + 1, fam.alias)

    def same_names(self, k, sz):
        """the two names a comparison `startswith` shows to be equal, or None"""
        try:
            h = fam_fields([('p', y, None) for y in bufs.pieces(k.a[1])], sz)
            n = fields([('p', y, None) for y in bufs.pieces(k.a[2])], sz)
            if len(n) == 1 and h and n[0].wt == 2 and h[0].wt == 2 and n[0].tag == h[0].tag == 1:
                return tuple(text(h[0])), tuple(text(n[0]))
        except Bad:
            pass
        return None

    def fold(self, V, V2, r, p, sz):
        """replace the metrics appended by one opaque piece"""
        for b in self.bufs:
            old, new = at(V, b), at(V2, b)
            if old is new:
                continue
            its = stream(r.I, p.st, own(r.I, p))
            fs = fields(its, sz)
            for f in fs:
                if f.tag != 4 or f.wt != 2:
                    raise Bad('a sample appends a field %s to the family' % f.tag, f.site)
            if len(fs) != 1:
                raise Bad('a sample appends %d metrics' % len(fs), fs[0].site if fs else None)
            ps = bufs.pieces(old)
            if new.op != 'op' or not self.extends(new, old, r):
                raise Bad('a sample changes what has been written of its family', None)
            x = bufs.from_pieces(ps if ps and ps[-1] is SMP else ps + [SMP])
            V2 = setp(V2, b, 0, x)
        return V2

    def extends(self, new, old, r):
        while new is not old:
            if new.op == 'op' and new.a[0] == 'app':
                new = new.a[1]
            else:
                return new.op == 'lv' and any(l[3] is new and (l[2] is old or self.extends(l[2], old, r)) for L in r.I.loops.values() for l in L.leaves)
        return True


def machines(cx):
    if not hasattr(cx, 'machines_'):
        coders(cx)
        cx.machines_ = [Machine(cx, False), Machine(cx, True)]
    return cx.machines_


def reuse(cx):
    """C30: whatever the state before, a flushed encoder does what a new one does"""
    for m in machines(cx):
        inst = 'proto::root_flush' + ('_two' if m.two else '')
        for rule, i, msg, site in m.errors:
            cx.ob('clean', i, False, msg, site)
        if not m.ok:
            continue
        flushed = {s.V2 for s in m.steps if s.what[0] == 'flush' and not s.failed}
        cx.need('clean', inst, len(flushed), 1)
        base = behaviour(m, m.new)
        for V in flushed | {s.V2 for s in m.steps if s.failed}:
            b = behaviour(m, V)
            for what in base:
                cx.ob('clean', inst, b.get(what) == base[what], 'after a flush, %s does not do what it does with a new encoder' % ' '.join(str(x) if isinstance(x, str) else shown(x) if isinstance(x, tuple) else show(x) for x in what)[:200])
        for s in m.steps:
            if s.what[0] == 'flush' and not s.failed:
                cx.ob('flushed', inst, s.flushed == 1, 'the writer is flushed %d times' % s.flushed)


def behaviour(m, V):
    """what each call does in a state with nothing announced: what it writes and the state it leaves"""
    out = {}
    for s in m.steps:
        if s.V is V and s.fam is None and not s.failed and s.what[0] != 'flush':
            out.setdefault(s.what, set()).add((tuple(str(fs) for fs, _, _ in s.msgs), s.V2))
    return out
