"""Every length prefix equals the size of its content. The functions that write or measure varints are
found by their signature and checked against the wire format for every bit length of the number. Then,
on every path of every call that appends to a family or writes a message, the pieces appended are read
back as fields: the number in each length prefix, as a sum of the lengths of strings and of varints,
must be exactly the sum of the sizes of the pieces that follow, up to the end of the enclosing message.
Labels written in a loop are compared with the loop that adds up their sizes."""
TECHNIQUE = 'value-flow dataflow over MIR paths with symbolic sizes (linear length polynomials); known-bits analysis of the varint coders'
from .proto import *


def leaf_messages(fs, sz):
    """read everything to the last level"""
    n = 0
    for f in fs:
        n += 1
        if f.tag == 'loop':
            for fx, b, st, i, lid in f.items:
                n += leaf_messages(b, sz)
    return n


def run(cx):
    good, bad = coders(cx)
    P = cx.P
    note = coder_notes(cx)
    for fid in good:
        f = P.fns[fid]
        cx.ob('varint', f['d'].rsplit('::', 1)[-1], True)
    cx.need('varint', 'varint functions (%s)' % note, len(good), 1)
    n = 0
    roots = cx.roots(SAMPLES)
    for root in roots:
        for p, sz, I in sample_paths(cx, root):
            try:
                fs = fields(stream(I, p.st, own(I, p)), sz)
                k = 0
                for f in fs:
                    if f.tag != 4:
                        raise Bad('a sample appends a field %s to the family' % f.tag, f.site)
                    m = Metric(sub_fields(f, sz), sz, f.site)
                    k += 2 + len(m.parts)
                n += k
                cx.ob('sizes', root, True)
            except Bad as b:
                cx.ob('sizes', root, False, '%s%s' % (b, '; ' + note if note else ''), b.site)
        r = cx.runs.get((root, None))
        if r is not None:
            for p in r.pan:
                cx.ob('sizes', root, False, 'a panic is reachable: %s' % (p.val,), p.site)
    cx.need('sizes', 'samples', len(roots), 24)
    cx.need('sizes', 'length prefixes', n, 70)
    for m in machines(cx):
        inst = 'sequences' + (' of two-part names' if m.two else '')
        for rule, i, msg, site in m.errors:
            cx.ob('message', i, False, '%s%s' % (msg, '; ' + note if note else ''), site)
        k = sum(len(s.msgs) for s in m.steps)
        for s in m.steps:
            for fs, site, e in s.msgs:
                try:
                    for f in fs:
                        if f.wt == 2 and f.val is not SMP and f.tag != 4:
                            text(f)
                    cx.ob('message', s.root, True)
                except Bad as b:
                    cx.ob('message', s.root, False, str(b), b.site)
        cx.need('message', inst, k, 20)
    cx.extra['states'] = [len(m.seen) for m in machines(cx) if m.ok]
