"""Sample values are the stored values. On every path the value of the sample line is the decimal text
of the one atomic load of the metric's own cell, in the signedness and width of that cell, or of the
float in it for every class of float the path admits."""
TECHNIQUE = 'value-flow dataflow over MIR paths (provenance of the printed number)'
from .textlines import *

KIND = {'counter': 'u', 'gauge': 's', 'fgauge': 'f'}


def run(cx):
    n = 0
    for root in cx.roots(r'text::(root_(counter_two|counter_ref|counter_ns|met_counter|bcounter|bgauge|bfgauge)|\w+::root_(counter|gauge|fgauge))'):
        if root.startswith('text::gn') and not root.endswith('::root_counter') and cx.tier != 'thorough':
            continue
        name = root.split('::')[-1]
        kind = KIND[re.sub(r'_(two|ref|ns)$', '', name)[5:].replace('met_', '').replace('bcounter', 'counter').replace('bgauge', 'gauge').replace('bfgauge', 'fgauge')]
        if root.startswith('text::gn'):
            values = gn_values(cx, root)
        else:
            values = []
            for p, ls in parsed(cx, 'value', root) or []:
                ss = [l for l in ls if l.k == 'sample']
                if cx.ob('one-sample', root, len(ss) == 1, '%d sample lines for one metric' % len(ss)):
                    values.append((p, ss[0].value, ss[0].site))
        for p, v, site in values:
            n += 1
            at = [e for e in p.every() if e.kind == 'atomic']
            if not cx.ob('single-load', root, len(at) == 1 and at[0].name == 'load' and own(at[0].args[0]), 'the metric is accessed by: %s' % ', '.join('%s %s' % (e.name, show(e.args[0])) for e in at)[:200], at[0].site if at else None):
                continue
            x = at[0].res
            if kind == 'f':
                why = float_text(p.full, x, v, False)
                cx.ob('value', root, why is None, why, site)
            else:
                ok = not isinstance(v, bytes) and v.k == 'num' and v.v is ops.op('itoa', kind, 64, x)
                cx.ob('value', root, ok, 'the value is printed as %s' % (show(v.v) if not isinstance(v, bytes) else v), site)
    cx.need('value', 'text', n, 25)


def own(p):
    """inside the metric handed to the call"""
    return p is A[2] or p.op == 'ptr' and p.a[0].op == 'deref' and contains(p.a[0], lambda x: x is A[2])


def gn_values(cx, root):
    out = []
    r = cx.run(root)
    for p in successes(r) if r else []:
        try:
            items = Stream(r.I, p.st, p.trace).items
        except Bad as b:
            cx.ob('value', root, False, str(b), b.site)
            continue
        if not any(i.k == 'num' for i in items):
            # the path on which an earlier label could not be written
            continue
        nums = [i for i in items if i.k == 'num']
        if cx.ob('one-sample', root, len(nums) == 1, '%d values for one metric' % len(nums)):
            out.append((p, nums[0], nums[0].site))
    return out
