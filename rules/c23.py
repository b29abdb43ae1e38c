"""Derived metric groups over a corpus of declarations covering every field kind (plain, documented,
renamed, optional, flattened, shared, namespaced, nested namespaces) in every order. The expansion is
followed for opaque families, groups and encoder: on every path the calls made are, in order, exactly
those of the declaration, up to the first call that failed, whose error is returned; names and help
are compared byte for byte with the declaration. Generated constructors are compared with the
declared initialiser of each field."""
TECHNIQUE = 'path-sensitive effect-sequence dataflow over the MIR of derive expansions'
NOTE = 'quantifies over declarations by a corpus of 150 groups and 50 constructors; per declaration every path and every field value is covered'
import json
from engine.lib import *
from .c18 import norm, size, text

A0, A1 = S('arg0'), S('arg1')
BEGIN = {'px_begin_help': 'px_end_help', 'px_begin_fam': 'px_end_fam', 'px_begin_type': 'px_end_type', 'px_begin_sample': 'px_end_sample'}


def calls(p):
    """[(kind, name pieces, arguments, result, announced length)] of a path, or None when it is not made of whole calls"""
    out, cur = [], None
    for e in p.trace:
        if e.kind == 'loop':
            return None
        if e.kind != 'px':
            continue
        if e.args[0] is not A1:
            return None
        if e.name in BEGIN:
            if cur is not None:
                return None
            cur = [BEGIN[e.name], [], None]
        elif e.name == 'px_sink':
            if cur is None:
                return None
            cur[1].append(e.args[1])
        elif e.name == 'px_name_len':
            if cur is None:
                return None
            cur[2] = e.args[1]
        elif e.name in BEGIN.values():
            if cur is None or cur[0] != e.name:
                return None
            nm = norm(cur[1])
            out.append((e.name[7:], nm, tuple(e.args[1:]), e, cur[2] is size(nm)))
            cur = None
        elif e.name in ('px_group1', 'px_group2'):
            out.append(('group', None, tuple(e.args[1:]), e, True))
        else:
            return None
    return None if cur is not None else out


def inner(base, prefix):
    """calls of the corpus' nested groups"""
    n = lambda s: [(prefix + s).encode()]
    one, two = mk('fld', base, 0, 2), mk('fld', base, 1, 2)
    out = []
    for m, s, h in ((one, 'one', None), (two, 'second', b'inner help')):
        if h:
            out.append(('help', n(s), (bytes_term(h),)))
        out.append(('type', n(s), ()))
        out.append(('sample', n(s), (mk('fld', m, 0, 2), mk('fld', m, 1, 2))))
    return out


def expected(cx, inst, p, fields):
    out = []
    n = len(fields)
    for i, f in enumerate(fields):
        t = mk('val', A0) if n == 1 else mk('fld', mk('val', A0), i, n)
        k = f['kind']
        if k == 'n':
            out += inner(t, f['ns'] + '_')
            continue
        if k == 'N':
            out += inner(t, f['ns'] + '_deep_')
            continue
        nm = [f['name'].encode()]
        if f['help'] is not None:
            out.append(('help', nm, (bytes_term(f['help'].encode()),)))
        if k in 'oOh':
            d = p.facts.get(ops.op('discr', t))
            if d is None:
                out.append(None)
                continue
            if d == 0:
                continue
            t = proj(t, ('v', 1, 0, 1))
        if k == 'a':
            t = mk('val', t)
            t = mk('fld', t, 2, 3)
        out.append(('group', None, (t,)) if k in 'gha' else ('fam', nm, (t,)))
    return out


V0 = mk('val', A0)
# combinators: (call, argument, conditions on optional parts)
ARC = lambda t: mk('fld', mk('val', t), 2, 3)
SOME = lambda t: proj(t, ('v', 1, 0, 1))
F = lambda t, i: mk('fld', t, i, 2)
COMB = {
    'ref': [('group', 'px_group1', mk('val', V0), None)],
    'opt': [('group', 'px_group1', SOME(V0), V0)],
    'arc': [('group', 'px_group1', ARC(V0), None)],
    'pair': [('group', 'px_group1', F(V0, 0), None), ('group', 'px_group2', F(V0, 1), None)],
    'deep': [('group', 'px_group1', F(F(V0, 0), 0), None), ('group', 'px_group2', F(F(V0, 0), 1), None), ('group', 'px_group1', ARC(SOME(F(V0, 1))), F(V0, 1))],
    'optpair': [('group', 'px_group1', F(SOME(V0), 0), V0), ('group', 'px_group2', F(SOME(V0), 1), V0)],
    'famopt': [('fam', [b'alpha'], SOME(F(V0, 0)), F(V0, 0)), ('help', [b'alpha'], bytes_term(b'plain help'), None), ('fam', [b'alpha'], F(V0, 1), None)],
}


def combined(p, spec):
    out = []
    for kind, nm, t, opt in spec:
        if opt is not None:
            d = p.facts.get(ops.op('discr', opt))
            if d is None:
                out.append(None)
                continue
            if d == 0:
                continue
        out.append((kind, nm if isinstance(nm, list) else None, (t,), nm))
    return out


def collect(cx, name, fields, comb=False):
    root = 'groups::%s_%s::root_collect' % ('k' if comb else 'c', name)
    r = cx.run(root, split=True)
    if r is None:
        return 0
    cx.ob('no-panic', root, not r.pan, 'collecting may panic')
    full, opts = 0, set()
    for p in r.ret:
        got = calls(p)
        if not cx.ob('whole-calls', root, got is not None, 'the calls made are not recognised: %s' % [e.name for e in p.trace if e.kind == 'px'][:12]):
            continue
        want = combined(p, fields) if comb else expected(cx, root, p, fields)
        failed = [i for i, g in enumerate(got) if p.facts.get(ops.op('discr', g[3].res)) == 1 or g[3].res is p.val and i == len(got) - 1]
        ok = len(got) <= len(want)
        for g, w in zip(got, want):
            ok = ok and w is not None and g[0] == w[0] and g[2] == w[2] and (w[1] is None or list(g[1]) == w[1] and g[4])
            ok = ok and (g[0] != 'group' or len(w) < 4 or g[3].name == w[3])
        cx.ob('declared-order', root, ok, 'collects %s' % ', '.join('%s %s %s' % (g[0], text(g[1]) if g[1] is not None else '', [show(x)[:40] for x in g[2]]) for g in got)[:400])
        done = len(got) == len(want)
        unseen = [g for g in got[:-1] if p.facts.get(ops.op('discr', g[3].res)) != 0]
        cx.ob('stops-at-error', root, not unseen, 'goes on without looking at the result of a call')
        if p.val.op == 'agg' and p.val.a[0] == 0:
            seen = not got or p.facts.get(ops.op('discr', got[-1][3].res)) == 0
            cx.ob('every-field', root, done and not failed and seen, 'succeeds after %d of %d calls' % (len(got), len(want)))
            full += 1
        elif got and p.val is got[-1][3].res:
            # the last call's own result is passed on
            cx.ob('stops-at-error', root, p.facts.get(ops.op('discr', p.val)) == 1 or done, 'stops after a call that may have succeeded')
            cx.ob('stops-at-error', root, failed in ([], [len(got) - 1]), 'goes on after an error')
            full += done
        else:
            g = got[-1] if got else None
            ok = g is not None and failed == [len(got) - 1] and contains(p.val, lambda x: x is g[3].res)
            cx.ob('stops-at-error', root, ok, 'returns %s after %d calls' % (show(p.val)[:80], len(got)))
    cx.ob('every-field', root, full >= 1, 'no path collects the whole group')
    for i, f in enumerate(() if comb else fields):
        if f['kind'] in 'oOh':
            t = mk('val', A0) if len(fields) == 1 else mk('fld', mk('val', A0), i, len(fields))
            ds = {p.facts.get(ops.op('discr', t)) for p in r.ret}
            cx.ob('optional-both', root, {0, 1} <= ds, 'does not tell a present field from an absent one')
    return 1


def construct(cx, name, inits):
    root = 'groups::i_%s::root_new' % name
    r = cx.run(root)
    if r is None:
        return 0
    arg = lambda i: S('arg%d' % i)
    want = []
    for w in inits:
        if w[0] == 'arg':
            want.append(arg(w[1]))
        elif w[0] == 'md':
            want.append(ops.op('px', 'px_cfam_md', arg(w[1])))
        elif w[0] == 'ls':
            want.append(ops.op('px', 'px_cfam_ls_md', arg(w[1]), ops.op('px', 'px_meta_default')))
        elif w[0] == 'both':
            want.append(ops.op('px', 'px_cfam_ls_md', arg(w[1]), arg(w[2])))
        else:
            want.append(ops.op('px', 'px_cfam_default'))
    v = want[0] if len(want) == 1 else agg(0, want)
    cx.ob('initialised-as-declared', root, len(r.ret) == 1 and not r.pan and (r.ret[0].val is v or r.ret[0].val is agg(0, want)), 'builds %s, not %s' % (show(r.ret[0].val)[:160] if r.ret else 'nothing', show(v)[:160]))
    return 1


def run(cx):
    d = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'probe', 'groups.json')))
    n = sum(collect(cx, k, v) for k, v in sorted(d['collect'].items()))
    cx.need('groups', 'declarations', n, 150)
    n = sum(collect(cx, k, v, True) for k, v in sorted(COMB.items()))
    cx.need('combinators', 'groups', n, 7)
    n = sum(construct(cx, k, v) for k, v in sorted(d['new'].items()))
    cx.need('constructors', 'declarations', n, 50)
