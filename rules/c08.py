"""Every route that records an observation is analysed for 0, 1, 3 and 40 thresholds. On each path
the updates are exactly one counter by one and one addition of the value to the sum of the same
histogram. The comparisons that lead to a path are then evaluated over the finite order abstraction of
(value, thresholds): the value equal to, or strictly between, or outside each of the strictly
increasing thresholds, or NaN. Each position a path admits must be one whose bucket the path counts."""
TECHNIQUE = 'path-sensitive value-flow dataflow over MIR with a finite order abstraction of float comparisons'
from .hist import *


def run(cx):
    n_roots = 0
    for root in cx.roots(ROOTS):
        n = int(re.search(r'::h(\d+)::', root).group(1))
        r = cx.run(root, split=True)
        if r is None:
            continue
        n_roots += 1
        cx.ob('returns', root, r.ret, 'no path returns')
        if '::root_v' not in root:
            cx.ob('no-panic', root, not r.pan, 'may panic: %s' % (r.pan[0].val if r.pan else ''), r.pan[0].site if r.pan else None)
        seen = set()
        md = metadata(root)
        thr = threshold_index(md, n)
        roles = set()
        for p in r.ret:
            o, why = observation(p)
            if not cx.ob('one-bucket-one-sum', root, o is not None, why):
                continue
            v = value_of(root, cx, p)
            cx.ob('sum-is-value', root, o.val is v, 'adds %s to the sum, asked to observe %s' % (show(o.val)[:120], show(v)[:80] if v else '?'), o.sw.site)
            if o.bucket is None:
                b = n
            else:
                b = o.bucket.a[0] if o.bucket.op == 'c' else None
            roles.add((o.inf if o.bucket is None else None, o.inf[1], ) )
            if not cx.ob('known-bucket', root, b is not None and (o.bucket is None or b < n), 'bucket %s' % (show(o.bucket) if o.bucket else ''), o.site):
                continue
            for pos in list(range(2 * n + 1)) + ['nan']:
                if position_ok(p.facts, v, thr, pos, n):
                    seen.add(pos)
                    want = n if pos == 'nan' else pos // 2
                    cx.ob('first-bucket-not-below', root, b == want, 'a value %s is counted in bucket %d of %d, not %d' % (name(pos, n), b, n, want), o.site)
        infs = {x[0] for x in roles if x[0]}
        cx.ob('one-inf-counter', root, len(infs) <= 1, 'several +Inf counters')
        if seen:
            cx.ob('all-values', root, len(seen) == 2 * n + 2, 'no path for %s' % [name(q, n) for q in list(range(2 * n + 1)) + ['nan'] if q not in seen][:4])
    for root in cx.roots(r'metrics::[hb]\d+::root_inner_observe(_mut)?'):
        n = int(re.search(r'::[hb](\d+)::', root).group(1))
        r = cx.run(root, split=True)
        if r is None:
            continue
        n_roots += 1
        i = S('arg1')
        for p in r.ret:
            o, why = observation(p)
            if not cx.ob('one-bucket-one-sum', root, o is not None, why):
                continue
            lo, hi = r.I.interval(p.st, i)
            cx.ob('sum-is-value', root, o.val is S('arg2'), 'adds %s to the sum' % show(o.val)[:120], o.sw.site)
            if o.bucket is None:
                cx.ob('given-bucket', root, lo >= n and hi == n, '+Inf is counted for bucket numbers %d..%d of %d' % (lo, hi, n), o.site)
            else:
                cx.ob('given-bucket', root, hi < n and (o.bucket is i or o.bucket.op == 'c' and lo == hi == o.bucket.a[0]), 'counts bucket %s for %d..%d' % (show(o.bucket), lo, hi), o.site)
        for p in r.pan:
            lo, hi = r.I.interval(p.st, i)
            cx.ob('given-bucket', root, lo > n, 'panics for bucket number %d of %d' % (lo, n), p.site)
    cx.need('observing-routes', 'roots', n_roots, 4 * 13 + 10)


def name(pos, n):
    if pos == 'nan':
        return 'NaN'
    if pos % 2:
        return 'equal to bound %d' % (pos // 2)
    return 'below bound %d' % (pos // 2) if pos < 2 * n else 'above every bound'
