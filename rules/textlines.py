"""Helpers over parsed lines."""
from .textgram import *

A = [S('arg%d' % i) for i in range(6)]
NAME1 = (ops.op('px', 'px_name_bytes', A[1]),)
NAME2 = (ops.op('px', 'px_name2_a', A[1]), ops.op('px', 'px_name2_b', A[1]))


def pxt(n, *a):
    return mk('px', n, *a)


def tok(ts):
    """tokens as comparable values"""
    return tuple(t if isinstance(t, bytes) else t.v for t in ts)


def shown(ts):
    return ' '.join(repr(t) if isinstance(t, bytes) else show(t) for t in ts)


def names(root):
    return NAME2 if root.endswith('_two') or '_two' in root else NAME1


def parsed(cx, rule, root, split=False):
    """[(path, lines)] of the successful paths, or None after reporting"""
    r = cx.run(root, split=split)
    if r is None:
        return None
    out = []
    for p in successes(r):
        try:
            s = Stream(r.I, p.st, p.trace)
            if not cx.ob('one-writer', root, len(s.dests) <= 1, 'the output goes to %d places' % len(s.dests)):
                continue
            out.append((p, lines(s.items)))
        except Bad as b:
            cx.ob(rule, root, False, str(b), b.site)
    if not out:
        cx.ob(rule, root, False, 'no path succeeds')
    return out


def fldt(n, i):
    return mk('fld', A[3], i, n)


def _ln(x):
    return ops.op('px', 'px_ln', x)


def _sv(x):
    return ops.op('px', 'px_sval', x)


# the labels the probe's groups carry: (name, kind, value)
GROUPS = {
    'g0': [], 'nl': [],
    'g1': [(_ln(fldt(2, 1)), 's', _sv(fldt(2, 0)))],
    'g1i': [(_ln(fldt(2, 1)), 'i', fldt(2, 0))],
    'g1f': [(_ln(fldt(2, 1)), 'f', fldt(2, 0))],
    'g2': [(_ln(fldt(4, i + 1)), 's', _sv(fldt(4, i))) for i in (0, 2)],
    'g3': [(_ln(fldt(6, i + 1)), 's', _sv(fldt(6, i))) for i in (0, 2, 4)],
}
WITH = {'root_counter_two': 'g1', 'root_counter_ref': 'g1', 'root_counter_ns': 'g1', 'root_hist3_two': 'g1', 'root_hist40': 'g1', 'root_met_counter': 'nl', 'root_met_hist': 'nl',
        'root_bcounter': 'g1', 'root_bgauge': 'g1f', 'root_bfgauge': 'g1i', 'root_bhist': 'g2'}


def group_of(root):
    parts = root.split('::')
    return GROUPS[parts[1]] if parts[1] in GROUPS else GROUPS[WITH[parts[1]]]


def label_bad(facts, label, exp):
    """-> reason or None"""
    (ln, vs), (name, kind, val) = label, exp
    if tok(ln) != (name,):
        return 'the label name is %s, not %s' % (shown([x if isinstance(x, bytes) else x.v for x in ln]) or 'missing', show(name))
    if kind == 'f':
        if len(vs) != 1:
            return 'the value of label %s is written in %d pieces' % (show(name), len(vs))
        return float_text(facts, val, vs[0], True)
    if kind == 's' and not vs and facts.get(mk('meta', val)) == 0:
        return None
    if len(vs) != 1 or isinstance(vs[0], bytes):
        return 'the value of label %s is not %s' % (show(name), show(val))
    v = vs[0]
    if kind == 'i':
        return None if v.k == 'num' and v.v is ops.op('itoa', 's', 64, val) else 'the integer label prints as %s' % show(v.v)
    if v.v is not val:
        return 'the value of label %s is %s' % (show(name), show(v.v))
    if v.k != 'str' or 'label' not in v.esc:
        return 'the value of label %s is not escaped as a label value (fits: %s)' % (show(name), ', '.join(sorted(getattr(v, 'esc', []))) or 'nothing')
    return None
