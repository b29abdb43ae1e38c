"""Rendered histograms. Every path that writes a histogram is parsed into lines: the bucket lines are
those of indices 0..N in order (unrolled, or a loop whose inductive index covers exactly that range
and whose accumulator is the prefix sum of one snapshot's buckets), each labelled with its own
threshold for every class of float; then one +Inf bucket with the total, one sum line with the
snapshot's sum and one count line with the same total. All numbers come from one snapshot."""
TECHNIQUE = 'value-flow dataflow with inductive loop summaries over MIR paths; parsing of the abstract output'
from .textlines import *
from .iters import iterations, beside
from . import hist

ROOTS = r'text::((g0|g1|g1i|nl)::root_hist[013]|g1f::root_hist0|g2::root_hist1|root_(hist3_two|hist40|met_hist|bhist))'
SLOW = r'text::(root_hist40|g1f::.*|g1i::root_hist[03]|nl::root_hist3|g1::root_hist3)'


def roles(cx):
    """(bucket array, +Inf count, sum) fields of the recorded state, found from what recording updates"""
    b = i = s = None
    r = cx.run('metrics::h3::root_observe', split=True)
    for p in r.ret if r else []:
        o, why = hist.observation(p)
        if o is None:
            continue
        f, se = o.inf
        if s is not None and s != se:
            return None
        s = se
        if o.bucket is None:
            i = f
        else:
            b = f
    return (b, i, s) if b and i and s else None


def unarr(t):
    """an element of a copied array is that element of the original"""
    if t.op == 'sel' and t.a[0].op == 'arr' and t.a[0].a and all(x.op == 'sel' and x.a[1] is C(j) and x.a[0] is t.a[0].a[0].a[0] for j, x in enumerate(t.a[0].a)):
        return sel(t.a[0].a[0].a[0], t.a[1])
    return t


def norm(t):
    arrs = {x: unarr(x) for x in subterms(t) if x.op == 'sel'}
    return subst(t, {k: v for k, v in arrs.items() if k is not v})


def num(v):
    return norm(v.v) if not isinstance(v, bytes) and v.k == 'num' else None


def run(cx):
    rl = roles(cx)
    if not cx.ob('roles', 'metrics::h3::root_observe', rl is not None, 'bucket counts, the +Inf count and the sum of a histogram were not identified'):
        return
    n = 0
    for root in cx.roots(ROOTS):
        if cx.tier != 'thorough' and re.fullmatch(SLOW, root):
            continue
        got = parsed(cx, 'lines', root)
        for p, ls in got or []:
            n += 1
            one(cx, root, p, ls, rl)
    cx.need('lines', 'text', n, 20)


def buckets_of(root):
    m = re.search(r'hist(\d+)', root)
    return int(m.group(1)) if m else 3


def one(cx, root, p, ls, rl):
    N = buckets_of(root)
    thr = A[4]
    own = group_of(root)
    nm = names(root)
    if 'met_hist' in root:
        ls = [l for l in ls if l.k in ('sample', 'loop')]
        thr = None
    if any(l.k not in ('sample', 'loop') for l in ls):
        return cx.ob('lines', root, False, 'the lines written are: %s' % ', '.join(l.k for l in ls))
    snaps = {x for l in flat(ls) for x in subterms(l.value.v if not isinstance(l.value, bytes) else C0) if x.op == 'hv'}
    H = None
    if N or any(l.k == 'sample' for l in ls):
        if not cx.ob('one-snapshot', root, len(snaps) == 1, 'the numbers come from %d snapshots' % len(snaps)):
            return
        H = next(iter(snaps))
    fb, fi, fs = rl
    B, INF, SUM = proj(H, fb), proj(H, fi), proj(H, fs)
    # the bucket lines
    i = 0
    total = None
    if ls and ls[0].k == 'loop':
        l = ls[0]
        L = l.item.L
        it = iterations(p.run.I, p.facts, [], l.item.v, C(N))
        if not cx.ob('range', root, it is not None and not it[1], 'the loop over the buckets is not shown to visit exactly the %d buckets' % N, l.site):
            return
        k = L.k
        for bi, (fx, sub_, st) in enumerate(l.bodies):
            if not cx.ob('lines', root, len(sub_) == 1 and sub_[0].k == 'sample', 'an iteration writes the lines: %s' % ', '.join(x.k for x in sub_), l.site):
                return
            x = sub_[0]
            v = num(x.value)
            term = sel(B, k)
            pre = [C0]
            for j in range(N):
                pre.append(add(64, pre[-1], sel(B, C(j))))
            if N and v is ops.op('itoa', 'u', 64, sel(mk('arr', *pre[1:]), k)):
                # the snapshot's array was replaced by its prefix sums beforehand
                total = (pre[-1],)
                line(cx, root, {**p.full, **beside(st), **fx}, x, nm + (b'_bucket',), own, k, p)
                continue
            acc = [q for q in L.leaves if q[0] == 'lv' and q[2] is C0 and v is ops.op('itoa', 'u', 64, add(64, q[3], term)) and all(norm(u) is add(64, q[3], term) for j, u in enumerate(q[4]) if j in l.item.index)]
            if not cx.ob('cumulative', root, len(acc) >= 1, 'the bucket line prints %s' % (show(v)[:200] if v is not None else x.value), x.site):
                return
            # at the end of the loop the accumulator is the sum of all the buckets
            total = (acc[0][3], pre[-1])
            line(cx, root, {**p.full, **beside(st), **fx}, x, nm + (b'_bucket',), own, k, p)
        i = 1
    else:
        run_ = C0
        for j in range(N):
            if not cx.ob('lines', root, j < len(ls) and ls[j].k == 'sample', 'the line of bucket %d is missing' % j):
                return
            run_ = add(64, run_, sel(B, C(j)))
            x = ls[j]
            cx.ob('cumulative', root, num(x.value) is ops.op('itoa', 'u', 64, run_), 'bucket line %d prints %s' % (j, show(num(x.value))[:200] if num(x.value) is not None else x.value), x.site)
            line(cx, root, p.full, x, nm + (b'_bucket',), own, C(j), p)
        total = (run_,)
        i = N
    rest = ls[i:]
    if not cx.ob('lines', root, len(rest) == 3 and all(x.k == 'sample' for x in rest), 'after the buckets there are %d lines' % len(rest), rest[0].site if rest else None):
        return
    count = [ops.op('itoa', 'u', 64, add(64, x, INF)) for x in total]
    inf, sm, ct = rest
    cx.ob('inf-bucket', root, num(inf.value) in count, 'the +Inf bucket prints %s' % (show(num(inf.value)) if num(inf.value) is not None else inf.value)[:200], inf.site)
    line(cx, root, p.full, inf, nm + (b'_bucket',), own, 'inf', p)
    why = float_text(p.full, SUM, sm.value, False)
    cx.ob('sum', root, why is None, why, sm.site)
    line(cx, root, p.full, sm, nm + (b'_sum',), own, None, p)
    cx.ob('count', root, num(ct.value) in count, 'the count prints %s' % (show(num(ct.value)) if num(ct.value) is not None else ct.value)[:200], ct.site)
    line(cx, root, p.full, ct, nm + (b'_count',), own, None, p)


def flat(ls):
    for l in ls:
        if l.k == 'loop':
            for fx, sub_, st in l.bodies:
                yield from flat(sub_)
        elif l.k == 'sample':
            yield l


def line(cx, root, facts, l, name, own, bound, p):
    cx.ob('name', root, tok(l.name) == joined(name), 'the line is named %s' % shown(tok(l.name)), l.site)
    k = len(own)
    if not cx.ob('labels', root, len(l.labels) == k + (bound is not None), '%d labels on the line' % len(l.labels), l.site):
        return
    for lab, e in zip(l.labels, own):
        why = label_bad(facts, lab, e)
        cx.ob('labels', root, why is None, why, l.site)
    if bound is None:
        return
    ln, v = l.labels[-1]
    if not cx.ob('bound', root, tok(ln) == (b'le',) and len(v) == 1, 'the last label is %s' % shown(tok(ln)), l.site):
        return
    if bound == 'inf':
        cx.ob('bound', root, v[0] == b'+Inf', 'the last bucket is labelled %s' % shown(tok(v)), l.site)
        return
    # the thresholds handed to the call, at this index
    base = thresholds(root, p)
    why = float_text(facts, sel(base, bound), norm_tok(v[0]), True)
    cx.ob('bound', root, why is None, why, l.site)


def norm_tok(t):
    if isinstance(t, bytes) or t.k != 'num':
        return t
    return Item('num', norm(t.v), t.site)


def thresholds(root, p):
    if 'met_hist' in root:
        # the metadata stored in the metric
        for x in {x for e in p.every() for a in e.args if isinstance(a, T) for x in subterms(a)}:
            if x.op == 'op' and x.a[0] == 'ryu' and x.a[3].op == 'sel' and contains(x.a[3], lambda y: y is mk('val', A[2])) and not contains(x.a[3], lambda y: y.op == 'hv'):
                return x.a[3].a[0]
        return mk('val', A[4])
    return mk('val', A[4])


def joined(name):
    out = []
    for x in name:
        if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += x
        else:
            out.append(x)
    return tuple(out)
