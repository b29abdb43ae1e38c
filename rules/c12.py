"""Label values are escaped losslessly. For every label value string, the loop that copies it is shown
to emit exactly the image of the string (its own variables carry the position; bytes may be copied
only where the path shows they are none of backslash, quote and newline; a replacement must be that of
every byte the path admits there). Numeric labels are the decimal text of the label's own value, and
the texts of special floats are checked against every class of float the path admits."""
TECHNIQUE = 'value-flow dataflow over MIR paths with inductive loop summaries; recognition of the output as an escape transducer of the input string'
from .textlines import *
from .iters import beside

ROOTS = r'text::(g1::root_(counter|gauge|fgauge|hist1)|g1i::root_(counter|gauge)|g1f::root_(counter|fgauge)|g2::root_(counter|hist1)|g3::root_counter|root_(counter_two|counter_ref|bcounter|bgauge|bfgauge|bhist))'


def flat_lines(ls):
    for l in ls:
        if l.k == 'loop':
            for fx, sub_, st in l.bodies:
                yield from flat_lines(sub_)
        else:
            yield l


def run(cx):
    n = 0
    for root in cx.roots(ROOTS):
        # paths are kept apart: which text goes with which float must not be merged
        got = parsed(cx, 'escaped', root)
        if got is None:
            continue
        exp = group_of(root)
        seen = set()
        for p, ls in got:
            for l in flat_lines(ls):
                if l.k != 'sample':
                    continue
                n += 1
                own = [x for x in l.labels if tok(x[0]) != (b'le',)]
                if not cx.ob('labels', root, len(own) == len(exp), '%d labels are written, the group has %d' % (len(own), len(exp)), l.site):
                    continue
                for lab, e in zip(own, exp):
                    why = label_bad(p.full, lab, e)
                    cx.ob('escaped', root, why is None, why, l.site)
                for e in exp:
                    if e[1] == 'f':
                        seen |= {repr(f) for f in float_samples(p.full, e[2])}
        for e in exp:
            if e[1] == 'f':
                miss = [f for f in FLOATS if repr(f) not in seen]
                cx.ob('every-float', root, not miss, 'no text for %s' % miss[:3])
    cx.need('escaped', 'text', n, 20)
    # a group with any number of labels
    m = 0
    for root in cx.roots(r'text::gn::root_counter'):
        r = cx.run(root)
        if r is None:
            continue
        for p in successes(r):
            try:
                s = Stream(r.I, p.st, p.trace)
            except Bad as b:
                cx.ob('escaped', root, False, str(b), b.site)
                continue
            for it in s.items:
                if it.k != 'loop':
                    continue
                for fx, items, st in it.bodies:
                    if not items:
                        continue
                    m += 1
                    el = sel(mk('val', A[3]), it.L.k)
                    nm, val = ops.op('px', 'px_ln', mk('fld', el, 0, 2)), ops.op('px', 'px_sval', mk('fld', el, 1, 2))
                    sy = Syms(items)
                    try:
                        if sy.peek() in (0x7b, 0x2c):
                            sy.i += 1
                        ln = sy.until(b'="{},\n')
                        sy.lit(b'="')
                        v = sy.until(b'"\n\\')
                        sy.lit(b'"')
                        ok = sy.end()
                    except Bad as b:
                        cx.ob('escaped', root, False, str(b), b.site)
                        continue
                    why = label_bad({**p.full, **beside(st), **fx}, (ln, v), (nm, 's', val))
                    cx.ob('escaped', root, ok and why is None, why or 'more is written for a label', it.site)
    cx.need('escaped', 'text::gn', m, 2)
    given(cx)


V = mk('val', A[0])
GIVEN = {
    'v_str': ('px_label_str', '$arg0'),
    'v_string': ('px_label_str', 'slc(val(val($arg0).0.0),0,val($arg0).1)'),
    'v_rstr': ('px_label_str', show(V)),
    'v_rstring': ('px_label_str', 'slc(val(val(val($arg0)).0.0),0,val(val($arg0)).1)'),
    'v_sval': ('px_label_str', show(ops.op('px', 'px_sval', mk('val', V)))),
    'v_sval2': ('px_label_str', show(ops.op('px', 'px_sval', mk('val', mk('val', V))))),
    'v_ival': ('px_label_int', show(mk('val', V))),
    'v_fval': ('px_label_float', show(mk('val', V))),
}


class Num:
    k = 'num'

    def __init__(self, v):
        self.v = v


def given(cx):
    """text values are handed to the visitor as they are, through any reference; the test visitor returns that text"""
    n = 0
    for m, (name, want) in sorted(GIVEN.items()):
        root = 'labels::%s::root_value' % m
        r = cx.run(root)
        if r is None:
            continue
        n += 1
        cx.ob('as-given', root, len(r.ret) == 1 and not r.pan, 'visiting the value does not complete on every path', r.fnsite())
        for p in r.ret:
            es = p.every(('px',))
            cx.ob('as-given', root, len(es) == 1 and es[0].name == name and es[0].args[0] is A[1] and show(es[0].args[1]) == want,
                  'the visitor is given %s, not %s' % ([(e.name, show(e.args[1])[:80]) for e in es], want), r.fnsite())
    for x in ('str', 'int', 'float'):
        root = 'labels::v_test::root_' + x
        r = cx.run(root, split=True)
        if r is None:
            continue
        n += 1
        cx.ob('as-given', root, bool(r.ret) and not r.pan, 'may panic', r.fnsite())
        seen = set()
        for p in r.ret:
            t = text_of(r.I, p.st, p.val)
            if x == 'str':
                why = None if t is A[0] else 'returns %s' % show(t)[:100]
            elif x == 'int':
                why = None if t is ops.op('itoa', 's', 64, A[0]) else 'returns %s' % show(t)[:100]
            else:
                why = float_text(p.full, A[0], t.a[0] if t.op == 'bytes' else Num(t) if t.op == 'op' and t.a[0] == 'ryu' else b'?', True)
                seen |= {repr(f) for f in float_samples(p.full, A[0])}
            cx.ob('as-given', root, why is None, why, r.fnsite())
        if x == 'float':
            miss = [f for f in FLOATS if repr(f) not in seen]
            cx.ob('every-float', root, not miss, 'no text for %s' % miss[:3])
    cx.need('as-given', 'values', n, 11)


def text_of(I, st, v):
    """the text of a new string"""
    from engine import bufs
    if v.op != 'agg':
        return v
    try:
        q, ln = v.a[1].a[1], v.a[2]
        a, pre, start, n = I.slice_of(ptr(q.a[0], q.a[1], ln))
        return bufs.strval(I, st, I.mkslice(a, pre, start, ln))
    except Exception:
        return v
