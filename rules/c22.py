"""The calls a namespaced encoder or group makes are those of the plain one (same order, arguments,
labels and results on every path), except that each name written is prefixed by exactly the namespaces,
outermost first, joined by underscores; help, type and sample agree."""
TECHNIQUE = 'value-flow over MIR: path-by-path comparison of the call sequences with and without namespaces'
from engine.lib import *
from .c18 import norm, size, text, N

OPEN = {'px_begin_help': 'help', 'px_begin_type': 'type', 'px_begin_sample': 'sample'}


def pieces(spec):
    return norm([b'_' if x == '_' else ops.op('px', N, x[1]) if isinstance(x, tuple) else x for x in spec])


def calls(cx, rule, root, I, trace, enc, prefix, site=None):
    """canonical call sequence with the name pieces checked and removed"""
    out, cur, kind = [], None, None
    for e in trace:
        if e.kind == 'px' and e.name.startswith('px_'):
            if e.name in OPEN:
                cur, kind = [], OPEN[e.name]
                out.append((e.name,))
            elif e.name == 'px_sink':
                if cur is None:
                    cx.ob(rule, root, False, 'bytes are written outside a name', e.site)
                else:
                    cur.append(e.args[1])
            elif e.name == 'px_name_len':
                got = norm(cur or [])
                ok = got[:len(prefix)] == prefix if not prefix or not isinstance(prefix[-1], bytes) else got[:len(prefix)] == prefix
                rest = got[len(prefix):]
                plain = len(rest) == 1 and isinstance(rest[0], T) and rest[0].op == 'op' and rest[0].a[:2] == ('px', N)
                cx.ob(rule, '%s|%s' % (root, kind), ok and plain, '%s is written under %s' % (kind, text(got)), e.site)
                cx.ob('announced-length', '%s|%s' % (root, kind), e.args[1] is size(got), 'announces %s' % show(e.args[1]), e.site)
                out.append(('name', rest[0] if plain else None))
            else:
                out.append((e.name,) + tuple(e.args[1:]) + (e.res,))
        elif e.kind == 'loop':
            cs = [tuple(calls(cx, rule, root, I, tr, enc, prefix)) for fx, tr, s in I.loops[e.x].conts]
            out.append(('loop', frozenset(cs)))
        elif e.kind != 'lock':
            out.append((e.kind, e.name) + tuple(e.args))
    return out


def canon(cx, rule, root, prefix):
    r = cx.run(root)
    if r is None:
        return None
    out = []
    for p in r.ret:
        c = tuple(x for x in calls(cx, rule, root, r.I, p.trace, None, prefix) if not (x[0] == 'loop' and x[1] <= {()}))
        m = {}
        for x in c:
            if x[0] not in ('loop', 'name') and isinstance(x[-1], T) and x[-1].op == 'ev':
                m[x[-1]] = mk('result', len(m))
        go = renamer(m)
        out.append((go(c), go(p.val), p))
    return out


def compare(cx, root, prefix, plain, back=lambda x: x):
    """same canonical paths as the plain root"""
    a = canon(cx, 'name-prefix', root, prefix)
    b = canon(cx, 'name-plain', plain, [])
    if a is None or b is None:
        return
    A = {(back(c), back(v)) for c, v, p in a}
    B = {(c, v) for c, v, p in b}
    cx.need('same-calls', root, len(A), 1)
    for c, v, p in a:
        cx.ob('same-calls', root, (back(c), back(v)) in B, 'a path of the namespaced form has no counterpart: %s' % show(tuple(str(x[0]) for x in c))[:200], p.site)
    for c, v, p in b:
        cx.ob('same-calls', root + '|all', (c, v) in A, 'a path of the plain form has no counterpart: %s' % show(tuple(str(x[0]) for x in c))[:200], p.site)


def renamer(m):
    def go(x):
        if isinstance(x, T):
            return subst(x, m)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go


def run(cx):
    A = [S('arg%d' % i) for i in range(8)]
    # a plain encoder, in the argument order of e_0
    E = 'names::e_args::root_'
    one = lambda s: pieces([s, '_'])
    two = lambda o, i: pieces([o, '_', i, '_'])
    for kind, s in (('help', 3), ('ty', 2), ('sample', 2)):
        n = {'help': 3, 'ty': 2, 'sample': 2}[kind]
        # arguments: e_args (n, e, [h], s, [t], rest...), e_0 (e, n, rest...)
        for depth in (1, 2):
            m = {A[0]: A[1]}
            if kind == 'sample':
                for j in range(3):
                    m[A[2 + depth + j]] = A[2 + j]
            pre = one(A[n]) if depth == 1 else two(A[n], A[n + 1])
            compare(cx, E + kind + str(depth), pre, 'names::e_0::root_' + {'help': 'help', 'ty': 'ty', 'sample': 'sample'}[kind], renamer(m))
        compare(cx, 'names::e_ref::root_' + kind, [], 'names::e_0::root_' + kind)
    G = renamer({})
    val = mk('val', A[0])
    for root, pre in (('group1', one(A[2])), ('group2', two(A[3], A[2])), ('group1e', two(A[3], A[2]))):
        a = canon(cx, 'name-prefix', E + root, pre)
        b = canon(cx, 'name-plain', 'names::root_group_plain', [])
        if a and b:
            bk = renamer({A[0]: mk('val', A[0])})
            A_ = {(c, v) for c, v, p in a}
            B_ = {(c, v) for c, v, p in b}
            one_to_one(cx, E + root, a, b)
    v0 = mk('val', A[0])
    for kind in ('fam', 'met'):
        root = 'names::root_%s_ns' % kind
        r = cx.run(root)
        if r is None:
            continue
        # the namespace is the field of the wrapper that is written first
        first = next((e.args[1] for p in r.ret for e in p.every() if e.kind == 'px' and e.name == 'px_sink'), None)
        ok = first is not None and contains(first, lambda x: x is v0)
        cx.ob('name-prefix', root + '|namespace', ok, 'the first piece of the name is not the namespace: %s' % (show(first) if first is not None else 'nothing'))
        if ok:
            compare(cx, root, pieces([first, '_']), 'names::root_%s_plain' % kind)
    # constructors prefix with the namespace that was given
    cx.need('name-prefix', 'names checked', sum(o[0] == 'name-prefix' for o in cx.obs), 30)


def one_to_one(cx, root, a, b):
    """group roots: the group is held by value in one and by reference in the other"""
    A = S('arg0')
    m = renamer({mk('val', A): A})
    X = {(m(c), m(v)) for c, v, p in a}
    Y = {(m(c), m(v)) for c, v, p in b}
    for c, v, p in a:
        cx.ob('same-calls', root, (m(c), m(v)) in Y, 'a path of the namespaced form has no counterpart: %s' % show(tuple(str(x[0]) for x in c))[:200], p.site)
    for c, v, p in b:
        cx.ob('same-calls', root + '|all', (m(c), m(v)) in X, 'a path of the plain form has no counterpart', p.site)
