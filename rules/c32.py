"""The three constructors are analysed for 0, 1, 3 and 40 bounds, the derived ones for 300 too. The
comparisons on each accepting path must leave exactly the required relations possible, those on a
rejecting path must rule one of them out, nothing else may reject, and the bounds kept are compared
with the specified terms."""
TECHNIQUE = 'path-sensitive value-flow dataflow over MIR'
from .hist import *


def fconst(t, x):
    return t.op == 'f' and t.a[0] == x or show(t) in ('%sf' % x,)


def strip(facts):
    return {t: v for t, v in facts.items() if t.op == 'op' and t.a[0] in ('flt', 'fle', 'feq', 'fne')}


ALL = frozenset('<=>u')
HOLDS = {'flt': frozenset('<'), 'fle': frozenset('<='), 'feq': frozenset('='), 'fne': frozenset('<>u')}
FLIP = {'<': '>', '>': '<', '=': '=', 'u': 'u'}


class Rel:
    """what the comparisons made on a path leave possible between two values: less, equal,
    greater, unordered; `nan` maps a value to 0 (a number) or 1 (not a number)"""
    def __init__(self, p):
        self.r, self.nan = {}, {}
        for t, v in strip(p.facts).items():
            a, b = t.a[-2], t.a[-1]
            h = HOLDS[t.a[0]]
            h = h if v else ALL - h
            if a is b:
                h &= frozenset('=u')
                if len(h) == 1:
                    self.nan[a] = int('u' in h)
                continue
            self.r[(a, b)] = self.r.get((a, b), ALL) & h
            self.r[(b, a)] = frozenset(FLIP[x] for x in self.r[(a, b)])
        for (a, b), h in list(self.r.items()):
            num = [self.nan.get(x, 0 if x.op == 'f' or fconst(x, 0.0) or fconst(x, 1.0) else None) for x in (a, b)]
            if num == [0, 0]:
                h -= frozenset('u')
            if 1 in num:
                h &= frozenset('u')
            self.r[(a, b)] = h

    def impossible(self):
        return any(not h for h in self.r.values())

    def of(self, a, b):
        h = self.r.get((a, b), ALL)
        return h & frozenset('u') if 1 in (self.nan.get(a), self.nan.get(b)) else h


def with_buckets(cx, root, n):
    r = cx.run(root, split=True)
    if r is None:
        return
    A = S('arg0')
    bound = [sel(A, C(i)) for i in range(n)]
    idx = {b: i for i, b in enumerate(bound)}
    need = [(bound[i], bound[i + 1]) for i in range(n - 1)]
    cx.ob('accepts', root, len(r.ret) >= 1, 'accepts nothing')
    for p in r.ret:
        q = Rel(p)
        if q.impossible():
            continue
        miss = sum(q.of(a, b) != {'<'} for a, b in need)
        cx.ob('accepts-only-increasing', root, not miss, 'bounds are accepted though %d of %d adjacent pairs are not known to increase' % (miss, n - 1))
        cx.ob('accepts-all-increasing', root, implied(q, idx), 'accepting needs more than increasing bounds: %s' % [show(t) for t in strip(p.facts)][:4])
        cx.ob('bounds-unchanged', root, keeps(p.val, A, n), 'keeps %s' % show(p.val)[:160])
    for p in r.pan:
        q = Rel(p)
        ok = q.impossible() or n > 1 and not implied(q, idx, False)
        cx.ob('rejects-only-others', root, ok, 'may reject strictly increasing bounds', p.site)


def implied(q, idx, strict=True):
    """what is established follows from (strict) or agrees with a[0] < a[1] < ... with no NaN"""
    for (a, b), h in q.r.items():
        i, j = idx.get(a), idx.get(b)
        if i is None or j is None:
            if strict:
                return False
        elif i < j and '<' not in h:
            return False
    return not any(v for x, v in q.nan.items() if x in idx)


def keeps(v, A, n):
    if v is A or v.op == 'agg' and len(v.a) == 2 and keeps(v.a[1], A, n):
        return True
    if n == 0:
        return True
    return all(sel(v, C(i)) is sel(A, C(i)) for i in range(n)) or v.op == 'fld' and v.a[0] is A


def derived(cx, root, n, kind):
    r = cx.run(root, split=True)
    if r is None:
        return
    start, k = S('arg0'), S('arg1')
    cx.ob('accepts', root, len(r.ret) == 1, '%d accepting paths' % len(r.ret))
    zero, one = (lambda t: fconst(t, 0.0)), (lambda t: fconst(t, 1.0))
    want = {'start': (zero, start), 'factor': (one, k)} if kind == 'exponential' else {'width': (zero, k)}
    for p in r.ret + r.pan:
        q = Rel(p)
        if q.impossible():
            continue
        conds = {c: ALL if q.nan.get(x) != 1 else frozenset('u') for c, (z, x) in want.items()}
        for (a, b), h in q.r.items():
            c = [c for c, (z, x) in want.items() if z(a) and b is x]
            if c:
                conds[c[0]] &= h
            elif not any(z(b) and a is x for z, x in want.values()):
                cx.ob('conditions', root, False, 'other comparisons decide: %s, %s' % (show(a), show(b)))
        for x in q.nan:
            cx.ob('conditions', root, any(x is y for _, y in want.values()), 'also depends on %s being a number' % show(x))
        if p.kind == 'ret':
            cx.ob('accepts-only-valid', root, all(h == {'<'} for h in conds.values()), 'accepts with %s possible' % {c: ''.join(sorted(h)) for c, h in conds.items()})
            v = p.val if n == 0 or p.val.op == 'arr' else p.val.a[1] if p.val.op == 'agg' else p.val
            for i in range(n):
                got = sel(v, C(i))
                ok = power(got, start, k, i) if kind == 'exponential' else step(got, start, k, i)
                cx.ob('bound', root, ok, 'bound %d is %s' % (i, show(got)[:120]))
        else:
            cx.ob('rejects-only-invalid', root, any('<' not in h for h in conds.values()), 'may reject valid parameters', p.site)


def power(t, s, k, i):
    """s * k^i"""
    if t.op == 'op' and t.a[0] == 'fmul':
        x, y = t.a[2], t.a[3]
        for a, b in ((x, y), (y, x)):
            if a is s and b.op == 'op' and b.a[0] == 'powi' and b.a[1] is k and b.a[2] is C(i):
                return True
    return False


def step(t, s, w, i):
    """s + w * i"""
    if t.op == 'op' and t.a[0] == 'fadd':
        for a, b in ((t.a[2], t.a[3]), (t.a[3], t.a[2])):
            if a is s and b.op == 'op' and b.a[0] == 'fmul' and ((b.a[2] is w and fconst(b.a[3], float(i))) or (b.a[3] is w and fconst(b.a[2], float(i)))):
                return True
    return False


def run(cx):
    k = 0
    for n in (0, 1, 3, 40):
        m = 'metrics::h%d::' % n
        with_buckets(cx, m + 'root_with_buckets', n)
        derived(cx, m + 'root_exponential', n, 'exponential')
        derived(cx, m + 'root_linear', n, 'linear')
        r = cx.run(m + 'root_thr_get')
        if r:
            k += 1
            cx.ob('get-unchanged', r.name, len(r.ret) == 1 and not r.pan and keeps(deref_val(r.ret[0]), mk('val', S('arg0')), n), 'the bounds returned are %s' % show(r.ret[0].val)[:120])
    derived(cx, 'metrics::b300::root_exponential', 300, 'exponential')
    derived(cx, 'metrics::b300::root_linear', 300, 'linear')
    cx.need('sizes', 'threshold counts', k, 4)


def deref_val(p):
    v = p.val
    t = v
    while t.op == 'ptr':
        if t.a[0].op != 'deref':
            return v
        x = mk('val', t.a[0].a[0])
        for e in t.a[1]:
            x = proj(x, e)
        return x
    return mk('val', v)
