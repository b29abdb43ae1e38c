"""Every field carries the tag, wire type and enum value of the schema, the value is the metric's own
cell and the labels are the group's own, whole and once each, in order."""
TECHNIQUE = 'value-flow dataflow over MIR paths (byte-level wire-format parse of every message a path appends)'
from .proto import *
from .iters import beside


def value_bad(kind, v, p):
    """is v the value of the metric's own cell as a double?"""
    # gauges and counters: an integer cell read once; float gauges: the bits of the cell
    loads = {e.res: e for e in p.every() if e.kind == 'atomic' and e.name == 'load'}
    src = [x for x in subterms(v) if x in loads]
    if len(src) != 1:
        return 'the value is %s, not one load of the cell' % show(v)[:120]
    e = loads[src[0]]
    if not rooted(e.args[0], A[2]):
        return 'the value is read from %s' % show(e.args[0])[:120]
    x = src[0]
    if kind == 'counter':
        ok = v is ops.op('i2f', 'u', 64, 64, x)
    elif kind == 'gauge':
        ok = v is ops.op('i2f', 's', 64, 64, x)
    else:
        ok = v is x or v.op == 'op' and v.a[0] in ('bitcast', 'frombits', 'i2fbits') and v.a[-1] is x
    return None if ok else 'the value written is %s' % show(v)[:120]


def rooted(t, base):
    if t is base:
        return True
    if t.op == 'ptr':
        return rooted(t.a[0], base)
    if t.op in ('deref', 'val', 'fld', 'vfld'):
        return rooted(t.a[0], base)
    return False


def label_bad_p(facts, label, exp):
    (ln, vs), (name, kind, val) = label, exp
    if list(ln) != [name]:
        return 'the label name is %s, not %s' % (shown([x for x in ln]) or 'missing', show(name))
    if kind == 'f':
        if len(vs) != 1:
            return 'the value of label %s is written in %d pieces' % (show(name), len(vs))
        t = vs[0]
        return float_text(facts, val, t if isinstance(t, bytes) else Item('num' if is_num(t) else 'x', t, None), True) if isinstance(t, bytes) or is_num(t) else 'the value of label %s is %s' % (show(name), show(t))
    if len(vs) != 1 or isinstance(vs[0], bytes):
        if kind == 's' and not vs and facts.get(mk('meta', val)) == 0:
            return None
        return 'the value of label %s is %s, not %s' % (show(name), shown(vs) or 'missing', show(val))
    want = ops.op('itoa', 's', 64, val) if kind == 'i' else val
    return None if vs[0] is want else 'the value of label %s is %s' % (show(name), show(vs[0])[:120])


def labels_ok(cx, root, p, m, I):
    g = root.split('::')[1]
    if g == 'gn':
        loops = [x for x in m.parts if x[0] == 'loop']
        if len(loops) != 1 or len(m.parts) != 1:
            return cx.ob('labels', root, False, 'the labels are written in %d loops and %d single fields' % (len(loops), len(m.parts) - len(loops)), m.kind.site)
        _, bodies, f, lid = loops[0]
        L = I.loops[lid]
        ks = [l[3] for l in L.leaves if l[2] is C0 and all(x is add(64, l[3], C(1)) for x in l[4])]
        base = mk('val', A[3])
        good = False
        why = 'not a loop over the labels'
        for fx, ls, st in bodies:
            if len(ls) != 1:
                return cx.ob('labels', root, False, '%d labels are written for one' % len(ls), f.site)
        for k in ks:
            el = sel(base, k)
            exp = (_ln(proj(el, ('f', 0, 2))), 's', _sv(proj(el, ('f', 1, 2))))
            bad = [x for x in (label_bad_p({**beside(st), **st.facts}, ls[0], exp) for fx, ls, st in bodies) if x]
            if not bad:
                good = True
            else:
                why = bad[0]
        if good:
            # every label: the loop runs until the counter reaches the number of labels
            n = mk('meta', A[3])
            good = any(p.facts.get(ops.eq(k, n)) == 1 or p.facts.get(ops.ult(64, k, n)) == 0 for k in ks)
            why = 'the loop does not run to the last label'
        return cx.ob('labels', root, good, why, f.site)
    exp = GROUPS[g]
    got = [x for x in m.parts if x[0] == 'label']
    if len(got) != len(m.parts):
        return cx.ob('labels', root, False, 'labels are written in a loop', m.kind.site)
    if len(got) != len(exp):
        return cx.ob('labels', root, False, '%d labels are written for %d' % (len(got), len(exp)), m.kind.site)
    for (_, l, f), e in zip(got, exp):
        bad = label_bad_p(p.full, l, e)
        cx.ob('labels', root, bad is None, bad, f.site)


from .textlines import _ln, _sv  # noqa: E402
from engine.interp import proj, sel  # noqa: E402


def run(cx):
    note = coder_notes(cx)
    n = 0
    roots = cx.roots(SAMPLES)
    for root in roots:
        kind = root.rsplit('_', 1)[-1]
        for p, sz, I in sample_paths(cx, root):
            try:
                fs = fields(stream(I, p.st, own(I, p)), sz)
                if len(fs) != 1 or fs[0].tag != 4 or fs[0].wt != 2:
                    raise Bad('a sample appends fields %s to the family instead of one metric (4)' % ', '.join('%s' % f.tag for f in fs), fs[0].site if fs else None)
                m = Metric(sub_fields(fs[0], sz), sz, fs[0].site)
            except Bad as b:
                cx.ob('metric', root, False, '%s%s' % (b, '; ' + note if note else ''), b.site)
                continue
            n += 1
            cx.ob('metric', root, m.kind.tag == KINDS[kind], 'the value of a %s is in field %s of the metric' % (kind, m.kind.tag), m.kind.site)
            bad = value_bad(kind, m.value, p)
            cx.ob('value', root, bad is None, bad, m.kind.site)
            labels_ok(cx, root, p, m, I)
    cx.need('metric', 'samples', n, 24)
    k = 0
    for m in machines(cx):
        for rule, i, msg, site in m.errors:
            cx.ob('family', i, False, msg, site)
        for s in m.steps:
            for fs, site, e in s.msgs:
                try:
                    d = only(fs, {1: 2, 2: 2, 3: 0, 4: 2}, 'a family')
                    for f in d.get(3, ()):
                        cx.ob('type', s.root, f.val.op == 'c' and f.val.a[0] in (0, 1), 'the type of a family is %s' % show(f.val), f.site)
                    if s.fam is not None and s.fam.typ is not None and len(d.get(3, ())) == 1:
                        f = d[3][0]
                        cx.ob('type', s.root, f.val is C(ENUM[s.fam.typ]), 'the type of a %s family is %s' % (s.fam.typ, show(f.val)), f.site)
                        k += 1
                except Bad as b:
                    cx.ob('family', s.root, False, str(b), b.site)
    cx.need('type', 'families', k, 40)
