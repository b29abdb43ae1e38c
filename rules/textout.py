"""The byte stream a path writes, as literal bytes and whole values.

A loop that copies a string while replacing some of its bytes is recognised by what it does, not by
how it is written: with the loop's own variables as the position in the string, every iteration and
the exit must extend the output to exactly the image of a longer prefix of the string. A byte may be
copied only where the path shows that it is not special; a replacement must be that of every byte the
path admits at that position."""
from engine.lib import *
import math
from engine.interp import State

ESCAPES = {
    'raw': {},
    'help': {0x5c: b'\\\\', 0x0a: b'\\n'},
    'label': {0x5c: b'\\\\', 0x22: b'\\"', 0x0a: b'\\n'},
}


class Bad(Exception):
    def __init__(self, msg, site=None):
        super().__init__(msg)
        self.site = site


class Item:
    """b: literal bytes; str: the string `v` under the escapes `esc`; num: formatted number `v`; loop: repeated bodies"""
    def __init__(self, k, v, site, **kw):
        self.k, self.v, self.site = k, v, site
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s:%s' % (self.k, self.v if self.k == 'b' else show(self.v) if isinstance(self.v, T) else self.v)


# ---------------------------------------------------------------- what a path knows of one byte
def fold(t, m):
    return subst(t, m)


def admits(st, bt):
    """the byte values of `bt` that the path allows"""
    if bt.op == 'c':
        return {bt.a[0]}
    hit = [(k, v) for k, v in st.facts.items() if k is not bt and contains(k, lambda x: x is bt)]
    out = set()
    d = st.facts.get(bt)
    ng = st.neg.get(bt, ())
    lo, hi = st.iv.get(bt, (0, 255))
    for b in range(256):
        if d is not None and b != d or b in ng or b < lo or b > hi:
            continue
        c = C(b)
        for k, v in hit:
            r = fold(k, {bt: c})
            if r.op == 'c' and r.a[0] != v:
                break
        else:
            out.add(b)
    return out


class Str:
    """a string value: identity `v`, content `base`, length `n`"""
    def __init__(self, v):
        self.v = v
        self.base = mk('val', v)
        self.n = mk('meta', v)


def str_of(x):
    """(Str, start, length) of a piece written, or None"""
    if x.op == 'slc' and x.a[0].op == 'val':
        return Str(x.a[0].a[0]), x.a[1], x.a[2]
    return None


def byte_of(x):
    """(Str, index) of a single byte taken from a string"""
    while x.op == 'op' and x.a[0] in ('trunc', 'zext'):
        x = x.a[3]
    if x.op == 'sel' and x.a[0].op == 'val':
        return Str(x.a[0].a[0]), x.a[1], x
    return None


def same(st, a, b):
    if a is b:
        return True
    e = ops.eq(a, b)
    if e.op == 'c':
        return bool(e.a[0])
    return st.facts.get(e) == 1


def at_end(st, S_, a):
    """does the path show that position a is at (or past) the end of the string?"""
    if same(st, a, S_.n):
        return True
    if st.facts.get(ops.ult(64, a, S_.n)) == 0:
        return True
    if a is C0 and st.facts.get(S_.n) == 0:
        return True
    return False


def clean(st, S_, a, b, inv, specials, depth=0):
    """no special byte in the positions [a, b) of the string"""
    if same(st, a, b) or not specials:
        return True
    if depth > 8:
        return False
    ab = ops.ult(64, a, b)
    if ab.op == 'c' and ab.a[0] == 0 or st.facts.get(ab) == 0:
        return True
    if at_end(st, S_, a):
        return True
    nxt = []
    for p, q in inv:
        if p is a and q is not a:
            nxt.append(q)
    for k, v in st.facts.items():
        if k.op == 'op' and k.a[0] == 'mhas' and k.a[2] is S_.v and k.a[3] is a and set(k.a[1].a[0]) >= set(specials):
            if v == 0:
                return True
            nxt.append(mk('op', 'mfind', *k.a[1:]))
    ad = admits(st, sel(S_.base, a))
    if not ad & set(specials):
        nxt.append(add(64, a, C(1)))
    return any(clean(st, S_, q, b, inv, specials, depth + 1) for q in nxt)


class Cur:
    """progress through one string"""
    def __init__(self, S_, pos, alive, inv=()):
        self.S, self.pos, self.alive, self.inv, self.pend = S_, pos, set(alive), inv, b''

    def here(self, st):
        """the bytes possible at the current position"""
        ad = admits(st, sel(self.S.base, self.pos))
        for k, v in st.facts.items():
            # a match position holds one of the bytes searched for
            if k.op == 'op' and k.a[0] == 'mhas' and v == 1 and mk('op', 'mfind', *k.a[1:]) is self.pos and k.a[2] is self.S.v:
                ad &= set(k.a[1].a[0])
        return ad

    def copy_(self, st, start, n, site):
        if self.pend and n is C(1):
            return self.byte(st, start, sel(self.S.base, start), site)
        if self.pend:
            raise Bad('an escape sequence is cut short', site)
        if not same(st, start, self.pos):
            raise Bad('the piece copied from position %s does not continue at %s' % (show(start), show(self.pos)), site)
        to = add(64, start, n)
        self.alive = {e for e in self.alive if clean(st, self.S, self.pos, to, self.inv, ESCAPES[e])}
        if not self.alive:
            raise Bad('bytes %s to %s of the string are copied although they may need escaping' % (show(self.pos), show(to)), site)
        self.pos = to

    def const(self, st, bs, site):
        for i in range(len(bs)):
            self.pend += bs[i:i + 1]
            ad = self.here(st)
            if not ad:
                raise Bad('an escape is written where no byte is possible', site)
            img = {e: {ESCAPES[e].get(b, bytes([b])) for b in ad} for e in self.alive}
            al = {e for e in self.alive if len(img[e]) == 1 and next(iter(img[e])).startswith(self.pend)}
            if not al:
                raise Bad('%r is written for the byte at %s, which may be %s' % (self.pend, show(self.pos), sample(ad)), site)
            self.alive = al
            done = {e for e in al if next(iter(img[e])) == self.pend}
            if done:
                self.alive = done
                self.pos = add(64, self.pos, C(1))
                self.pend = b''

    def byte(self, st, i, bt, site):
        if not same(st, i, self.pos):
            raise Bad('the byte at %s is copied at position %s' % (show(i), show(self.pos)), site)
        if self.pend:
            # the last byte of an escape sequence is the escaped byte itself
            ad = self.here(st)
            self.alive = {e for e in self.alive if ad and all(ESCAPES[e].get(b) == self.pend + bytes([b]) for b in ad)}
            if not self.alive:
                raise Bad('an escape sequence is cut short', site)
            self.pos, self.pend = add(64, self.pos, C(1)), b''
            return
        ad = admits(st, bt)
        self.alive = {e for e in self.alive if not ad & set(ESCAPES[e])}
        if not self.alive:
            raise Bad('the byte at %s is copied although it may need escaping' % show(self.pos), site)
        self.pos = add(64, self.pos, C(1))


def sample(ad):
    xs = sorted(ad)
    return ', '.join('0x%02x' % x for x in xs[:6]) + (', …' if len(xs) > 6 else '')


# ---------------------------------------------------------------- which events are output
def written(e):
    """the bytes an event writes, or None"""
    if e.kind == 'px' and e.name == 'px_w_write_all' or e.kind == 'px' and e.name == 'px_sink':
        return e.args[1]
    if e.kind == 'out' and e.name == 'append':
        return e.args[1]
    return None


def dest(e):
    return e.args[0]


def loop_strings(I, lid):
    out = {}
    only = True
    for fx, tr, s in I.loops[lid].conts:
        for e in tr:
            if e.kind == 'loop':
                only = False
                continue
            x = written(e)
            if x is None:
                continue
            r = str_of(x)
            if r is None and x.op == 'arr' and len(x.a) == 1:
                r = byte_of(x.a[0])
            if r is not None:
                out[r[0].v] = r[0]
    return out if only else {}


def is_num(x):
    return x.op == 'op' and x.a[0] in ('itoa', 'ryu')


class Stream:
    def __init__(self, I, st, trace):
        self.I, self.st = I, st
        self.items = []
        self.cur = None
        self.dests = set()
        self.flushed = 0
        for e in trace:
            self.event(e)
        self.finish(None)

    # -- strings
    def finish(self, site):
        if self.cur is None:
            return
        c = self.cur
        if c.pend or not at_end(self.st, c.S, c.pos):
            raise Bad('the string %s is written only up to %s' % (show(c.S.v), show(c.pos)), site)
        self.cur = None
        self.items.append(Item('str', c.S.v, site, esc=c.alive))

    def try_finish(self, site):
        c = self.cur
        if c is not None and not c.pend and at_end(self.st, c.S, c.pos):
            self.finish(site)

    def event(self, e):
        I, st = self.I, self.st
        if e.kind == 'loop':
            return self.loop(e)
        if e.kind == 'px' and e.name == 'px_w_flush':
            self.finish(e.site)
            self.flushed += 1
            self.items.append(Item('flush', None, e.site))
            return
        if e.kind == 'px' and e.name == 'px_w_write':
            raise Bad('write() may write a part of the bytes only', e.site)
        x = written(e)
        if x is None:
            return
        self.dests.add(dest(e))
        self.put(x, e.site)

    def put(self, x, site):
        st = self.st
        if x.op == 'bytes':
            if self.cur is not None:
                self.try_finish(site)
            if self.cur is not None:
                self.cur.const(st, x.a[0], site)
                self.try_finish(site)
            elif x.a[0]:
                self.items.append(Item('b', x.a[0], site))
            return
        r = str_of(x)
        if r is not None:
            S_, a, n = r
            if self.cur is not None and self.cur.S.v is not S_.v:
                self.finish(site)
            if self.cur is None:
                self.cur = Cur(S_, C0, ESCAPES)
            self.cur.copy_(st, a, n, site)
            self.try_finish(site)
            return
        if x.op == 'arr':
            for y in x.a:
                b = byte_of(y)
                if b is None:
                    if y.op != 'c':
                        raise Bad('a byte of unknown origin is written: %s' % show(y)[:120], site)
                    self.put(bytes_term(bytes([y.a[0] & 255])), site)
                    continue
                if self.cur is not None and self.cur.S.v is not b[0].v:
                    self.finish(site)
                if self.cur is None:
                    self.cur = Cur(b[0], C0, ESCAPES)
                self.cur.byte(st, b[1], b[2], site)
            return
        self.finish(site)
        if is_num(x):
            self.items.append(Item('num', x, site))
            return
        if x.op == 'op' and x.a[0] in ('app', 'bnew'):
            return self.putbuf(x, site)
        if x.op in ('px', 'sym', 'fld', 'vfld', 'val', 'ptr', 'op'):
            # a whole string
            S_ = Str(x)
            ok = {e for e in ESCAPES if clean(st, S_, C0, S_.n, (), ESCAPES[e])}
            self.items.append(Item('str', x, site, esc=ok))
            return
        raise Bad('bytes of unknown origin are written: %s' % show(x)[:160], site)

    def putbuf(self, x, site):
        parts = []
        while x.op == 'op' and x.a[0] == 'app':
            parts.append(x.a[2])
            x = x.a[1]
        if not (x.op == 'op' and x.a[0] == 'bnew'):
            raise Bad('a buffer of unknown content is written', site)
        for y in reversed(parts):
            self.put(y, site)

    # -- loops
    def loop(self, e):
        L = self.I.loops[e.x]
        bodies = L.conts
        if not any(written(x) is not None or x.kind == 'loop' or x.name in ('px_w_write', 'px_w_flush') for fx, tr, s in bodies for x in tr):
            return
        strs = loop_strings(self.I, e.x)
        if len(strs) == 1 and self.escape_loop(e, L, next(iter(strs.values()))):
            return
        self.finish(e.site)
        from rules.errors import fallible
        out, idx = [], []
        for i, (fx, tr, s) in enumerate(bodies):
            if any(fallible(x) and fx.get(ops.op('discr', x.res)) == 1 for x in tr):
                continue
            b = Stream(self.I, s, tr)
            self.dests |= b.dests
            out.append((fx, b.items, s))
            idx.append(i)
        self.items.append(Item('loop', e.x, e.site, bodies=out, L=L, index=idx))

    def escape_loop(self, e, L, S_):
        if self.cur is not None and self.cur.S.v is not S_.v:
            self.finish(e.site)
        start = self.cur.pos if self.cur is not None else C0
        alive0 = self.cur.alive if self.cur is not None else set(ESCAPES)
        if self.cur is not None and self.cur.pend:
            return False
        ends = {}
        why = None
        vars_ = [(l, l[3]) for l in L.leaves]
        for li, (l, p) in enumerate(vars_):
            if not (l[2] is start or same(self.st, l[2], start)):
                continue
            for lj, (m, q) in enumerate([(l, p)] + vars_):
                if m is not l and not same(self.st, m[2], l[2]):
                    continue
                good = set()
                for esc in alive0:
                    try:
                        if all(self.iteration(L, S_, esc, l, m, fx, tr, s, ci) for ci, (fx, tr, s) in enumerate(L.conts)):
                            good.add(esc)
                    except Bad as b:
                        why = why or b
                if good:
                    k = (p, q)
                    ends.setdefault(k, set()).update(good)
        if not ends:
            raise why or Bad('the loop copies the string %s in a way that could not be followed' % show(S_.v), e.site)
        # prefer the reading that keeps the most escapes open
        (p, q), good = max(ends.items(), key=lambda kv: (len(kv[1]), kv[0][0] is not kv[0][1]))
        self.cur = Cur(S_, p, good, [k for k in ends if ends[k] >= good])
        self.try_finish(e.site)
        return True

    def iteration(self, L, S_, esc, l, m, fx, tr, s, ci):
        inv = [(l[3], m[3])] if m is not l else []
        cur = Cur(S_, l[3], {esc}, inv)
        for e in tr:
            if e.kind == 'loop':
                raise Bad('a loop within a copying loop', e.site)
            x = written(e)
            if x is None:
                continue
            self.dests.add(dest(e))
            r = str_of(x)
            if r is not None:
                if r[0].v is not S_.v:
                    raise Bad('another string is written', e.site)
                cur.copy_(s, r[1], r[2], e.site)
            elif x.op == 'bytes':
                cur.const(s, x.a[0], e.site)
            elif x.op == 'arr':
                for y in x.a:
                    b = byte_of(y)
                    if b is not None and b[0].v is S_.v:
                        cur.byte(s, b[1], b[2], e.site)
                    elif y.op == 'c':
                        cur.const(s, bytes([y.a[0] & 255]), e.site)
                    else:
                        raise Bad('a byte of unknown origin is written', e.site)
            else:
                raise Bad('something else is written while a string is copied: %s' % show(x)[:100], e.site)
        if cur.pend:
            raise Bad('an escape sequence is cut short')
        pu, qu = l[4][ci], m[4][ci]
        if not same(s, cur.pos, pu):
            raise Bad('after an iteration %s bytes of the string are written, but the loop goes on from %s' % (show(cur.pos), show(pu)), L.site)
        if m is not l and not clean(s, S_, pu, qu, inv, ESCAPES[esc]):
            raise Bad('bytes %s to %s are left for later although they may need escaping' % (show(pu), show(qu)), L.site)
        return True


def successes(run):
    """paths on which no fallible call failed"""
    from rules.errors import fallible
    out = []
    for p in run.ret:
        if any(fallible(e) and p.facts.get(ops.op('discr', e.res)) == 1 for e in p.trace):
            continue
        if p.val is not None and p.val.op == 'agg' and p.val.a[0] == 1 and len(p.val.a) == 2:
            continue
        out.append(p)
    return out


# ---------------------------------------------------------------- lines
class Syms:
    """the items as a sequence of bytes (int) and atoms"""
    def __init__(self, items):
        self.x = []
        for it in items:
            if it.k == 'b':
                self.x += [(b, it.site) for b in it.v]
            elif it.k != 'flush':
                self.x.append((it, it.site))
        self.i = 0

    def peek(self, d=0):
        return self.x[self.i + d][0] if self.i + d < len(self.x) else None

    def site(self):
        j = min(self.i, len(self.x) - 1)
        return self.x[j][1] if self.x else None

    def fail(self, msg):
        raise Bad('%s (at %s)' % (msg, self.around()), self.site())

    def around(self):
        a = ''.join(chr(c) if isinstance(c, int) else '<%s>' % (show(c.v)[:30] if isinstance(c.v, T) else c.k) for c, _ in self.x[max(0, self.i - 12):self.i + 8])
        return repr(a)

    def lit(self, bs):
        for b in bs:
            if self.peek() != b:
                self.fail('%r expected' % bs)
            self.i += 1

    def starts(self, bs):
        return all(self.peek(j) == b for j, b in enumerate(bs))

    def end(self):
        return self.i >= len(self.x)

    def until(self, stop):
        """atoms and bytes up to one of the stop bytes"""
        out = []
        while not self.end() and not (isinstance(self.peek(), int) and self.peek() in stop):
            out.append(self.peek())
            self.i += 1
        return toks(out)


def toks(xs):
    """merge adjacent bytes"""
    out = []
    for x in xs:
        if isinstance(x, int):
            if out and isinstance(out[-1], bytes):
                out[-1] += bytes([x])
            else:
                out.append(bytes([x]))
        else:
            out.append(x)
    return out


class Line:
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Line(%s)' % self.__dict__


def name_ok(ts):
    for t in ts:
        if isinstance(t, bytes):
            if not re.fullmatch(rb'[a-zA-Z0-9_:]+', t):
                return False
        elif not (t.k == 'str' and 'raw' in t.esc):
            return False
    return bool(ts)


def parse_line(s):
    site = s.site()
    it = s.peek()
    if not isinstance(it, int) and it.k == 'loop':
        s.i += 1
        return Line('loop', item=it, bodies=[(fx, lines(items), st) for fx, items, st in it.bodies], site=site)
    if s.starts(b'\n'):
        s.i += 1
        return Line('blank', site=site)
    if s.starts(b'#'):
        if s.starts(b'# HELP '):
            s.lit(b'# HELP ')
            n = s.until(b' \n')
            if not name_ok(n):
                s.fail('not a metric name')
            s.lit(b' ')
            h = s.until(b'\n')
            s.lit(b'\n')
            return Line('help', name=n, text=h, site=site)
        s.lit(b'# TYPE ')
        n = s.until(b' \n')
        if not name_ok(n):
            s.fail('not a metric name')
        s.lit(b' ')
        t = s.until(b'\n')
        s.lit(b'\n')
        if not (len(t) == 1 and t[0] in (b'counter', b'gauge', b'histogram', b'summary', b'untyped')):
            s.fail('not a metric type')
        return Line('type', name=n, typ=t[0], site=site)
    n = s.until(b'{ \n')
    if not name_ok(n):
        s.fail('not a metric name')
    labels = []
    if s.starts(b'{'):
        s.i += 1
        while True:
            ln = s.until(b'=}",\n')
            if not name_ok(ln):
                s.fail('not a label name')
            s.lit(b'="')
            v = s.until(b'"\n\\')
            s.lit(b'"')
            labels.append((ln, v))
            if s.starts(b'}'):
                s.i += 1
                break
            s.lit(b',')
    s.lit(b' ')
    v = s.until(b' \n')
    if len(v) != 1:
        s.fail('one value expected')
    s.lit(b'\n')
    return Line('sample', name=n, labels=labels, value=v[0], site=site)


def lines(items):
    s = Syms(items)
    out = []
    while not s.end():
        out.append(parse_line(s))
    return out


# ---------------------------------------------------------------- numbers
FLOATS = [math.nan, -math.nan, math.inf, -math.inf, 0.0, -0.0, 1.0, -1.0, 1.5, -2.5, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e15, 1e16, -1e17, 0.1]


def float_samples(facts, x):
    """sample values of the float term x that the facts allow"""
    hit = []
    for k, v in facts.items():
        how, t = k if isinstance(k, tuple) else ('is', k)
        if contains(t, lambda y: y is x):
            hit.append((how, t, v))
    extra = [fval(t) for how, k, v in hit for t in subterms(k) if t.op == 'f']
    out = []
    for f in FLOATS + extra:
        bits = fconst(f)
        if f != f:
            bits = F(0x7ff8000000000000 | (0 if math.copysign(1, f) > 0 else 1 << 63))
        for how, k, v in hit:
            r = subst(k, {x: bits})
            if r.op != 'c':
                continue
            if how == 'is' and r.a[0] != v or how == 'not' and r.a[0] in v or how == 'in' and not v[0] <= r.a[0] <= v[1]:
                break
        else:
            out.append(f)
    return out


def float_texts(f, strict):
    if f != f:
        return {b'NaN'}
    if math.isinf(f):
        s = b'+Inf' if f > 0 else b'-Inf'
        return {s} if strict else {s, s.replace(b'+', b''), s.replace(b'+', b'').lower(), s.lower()}
    return set()


def float_text(facts, x, tok, strict):
    """is `tok` the text of the float x for every value the path allows? -> reason or None"""
    fs = float_samples(facts, x)
    if isinstance(tok, bytes):
        bad = [f for f in fs if tok not in float_texts(f, strict)]
        return '%r is written where the value may be %r' % (tok, bad[0]) if bad else None
    if tok.k != 'num' or tok.v.a[0] != 'ryu' or tok.v.a[3] is not x:
        return 'not the value: %s' % show(tok.v)[:120]
    if tok.v.a[2] != 64:
        return 'the value is narrowed before it is printed'
    if tok.v.a[1] != 'any':
        bad = [f for f in fs if f != f or math.isinf(f)]
        return '%r is formatted as if it were finite' % bad[0] if bad else None
    if strict:
        bad = [f for f in fs if f != f or math.isinf(f)]
        # ryu writes NaN, inf and -inf
        bad = [f for f in bad if f == f]
        return 'written as %r' % ('inf' if bad[0] > 0 else '-inf') if bad else None
    return None
