"""For every way to build a name (plain, borrowed, namespaced, suffixed, nested both ways) the bytes
written on every successful path are the namespaces joined by underscores, then the name, then the
suffixes, and the announced length is the sum of exactly those pieces' lengths, as polynomials in the
lengths of arbitrary parts."""
TECHNIQUE = 'value-flow over MIR: the written byte sequence and the announced length as symbolic sums'
from engine.lib import *

N = 'px_name_bytes'
MOD = {  # module -> expected pieces; 1.. are argument numbers, strings are literal
    'w_plain': ['raw1'], 'w_ref': ['raw1'], 'w_refref': ['name1'], 'w_byref': ['name1'],
    'w_ns': ['raw2', '_', 'name1'], 'w_nsin': ['raw2', '_', 'raw1'],
    'w_nsns': ['raw3', '_', 'raw2', '_', 'name1'], 'w_nsref': ['raw3', '_', 'raw2', '_', 'name1'],
    'w_total': ['name1', '_total'], 'w_count': ['name1', '_count'], 'w_sum': ['name1', '_sum'], 'w_bucket': ['name1', '_bucket'],
    'w_sfx': ['name1', 'sfx2'], 'w_mnsfx': ['raw1', 'sfx2'], 'w_nssfx': ['raw3', '_', 'name1', 'sfx2'],
    'w_sfxns': ['raw3', '_', 'name1', 'sfx2'], 'w_sfxsfx': ['name1', 'sfx2', 'sfx3'], 'w_refsfx': ['name1', 'sfx2'],
}


def expect(pieces):
    """normal form of the expected byte sequence"""
    out = []
    for p in pieces:
        if p.startswith('raw'):
            out.append(S('arg' + p[3:]))
        elif p.startswith('name'):
            out.append(ops.op('px', N, S('arg' + p[4:])))
        elif p.startswith('sfx'):
            out.append(ops.op('px', 'px_sfx', S('arg' + p[3:])))
        else:
            out.append(p.encode())
    return norm(out)


def norm(ps):
    out = []
    for p in ps:
        if isinstance(p, T) and p.op == 'bytes':
            p = p.a[0]
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif p != b'':
            out.append(p)
    return out


def written(I, p, sink='px_w_write_all'):
    """the bytes handed to the writer along a path, or None"""
    out = []
    for e in p.flat():
        if e.kind == 'px' and e.name == sink:
            v = e.args[1]
            out.append(v)
        elif e.kind == 'px' and e.name in ('px_w_write', 'px_w_flush'):
            return None
        elif e.kind == 'loop' and any(x.kind == 'px' for f, t, s in I.loops[e.x].conts for x in t):
            return None
    return norm(out)


def size(pieces):
    n = C0
    for p in pieces:
        n = add(64, n, C(len(p)) if isinstance(p, bytes) else mk('meta', p))
    return n


def text(ps):
    return ' '.join(repr(p)[1:] if isinstance(p, bytes) else show(p) for p in ps)[:150]


def success(p):
    from .errors import is_err
    evs = [e for e in p.flat() if e.kind == 'px' and e.res is not None and e.res is not UNIT]
    return all(p.facts.get(ops.op('discr', e.res)) != 1 or e is evs[-1] and False for e in evs)


def run(cx):
    for m, pieces in MOD.items():
        w, l = cx.run('names::%s::root_write' % m), cx.run('names::%s::root_len' % m)
        if w is None or l is None:
            continue
        want = expect(pieces)
        n = 0
        for p in w.ret:
            if not success(p):
                continue
            n += 1
            got = written(w.I, p)
            if got is None:
                cx.ob('written-bytes', m, False, 'not written as a sequence of whole pieces', p.site)
                continue
            cx.ob('written-bytes', m, got == want, 'writes %s, expected %s' % (text(got), text(want)), p.site)
        cx.need('written-bytes', m, n, 1)
        cx.need('announced-length', m, len(l.ret), 1)
        for p in l.ret:
            cx.ob('announced-length', m, p.val is size(want), 'announces %s, the bytes written are %s' % (show(p.val), show(size(want))), p.site)
    # the encoders receive the announced length next to the bytes they are to write
