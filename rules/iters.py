"""Which iterations a summarised loop performs."""
from engine.lib import *
from engine.interp import coef


def exits_at(I, facts, lid):
    """iteration numbers e such that the facts say the loop was left in iteration e (k == e, or the
    first k with k >= e)"""
    k = I.loops[lid].k
    out = []
    for t, v in facts.items():
        if t.op != 'op':
            continue
        if t.a[0] == 'eq' and v == 1 or t.a[0] == 'ult' and v == 0:
            a, b = t.a[-2], t.a[-1]
            if t.a[0] == 'ult' and t.a[1] != 64:
                continue
            if a.op in ('ptr', 'agg', 'f', 'bytes') or b.op in ('ptr', 'agg', 'f', 'bytes'):
                continue
            if not (contains(a, lambda x: x is k) or contains(b, lambda x: x is k)):
                continue
            d = sub(64, b, a)
            c = coef(d, k)
            if c == M(64):
                e = add(64, d, k)
            elif c == 1 and t.a[0] == 'eq':
                e = sub(64, k, d)
            else:
                continue
            if not contains(e, lambda x: x is k):
                out.append(e)
    return out


def iterations(I, facts, trace, lid, n):
    """For a path that leaves loop `lid` normally: the iteration classes that together cover exactly
    k = 0..n-1, as (facts, trace); None if that is not established. `trace` is what follows the
    loop on the path."""
    L = I.loops[lid]
    es = exits_at(I, facts, lid)
    conts = [({**facts_before(L, facts), **fx, **extra}, tr) for (fx, tr, s), extra in zip(L.conts, flags(L, facts)) if extra is not None]
    if any(e is n for e in es):
        return conts, False
    if any(e is sub(64, n, C(1)) for e in es):
        return conts + [(facts, trace)], True
    return None


def beside(s):
    """what terms are not, and their bounds"""
    return {**{('not', t): v for t, v in s.neg.items()}, **{('in', t): v for t, v in s.iv.items()}}


def facts_before(L, facts):
    return {t: v for t, v in facts.items() if not contains(t, lambda x: x is L.k)}


def bijective_index(i, k, n):
    """does k -> i enumerate 0..n-1?"""
    return i is k or i is sub(64, sub(64, n, C(1)), k)


def flags(L, facts):
    """what a path knows about each iteration from the final value of a flag that only ever goes one
    way (`ok &= ...`, `if ... { ok = false }`): every iteration left it as it was at the start"""
    out = [{} for c in L.conts]
    for kind, where, init, sym, ups in L.leaves:
        if kind != 'lv' or init.op != 'c' or init.a[0] not in (0, 1):
            continue
        v = facts.get(sym)
        if v is None and facts.get(ops.eq(sym, C0)) is not None:
            v = 1 - facts[ops.eq(sym, C0)]
        if v != init.a[0] or any(subst(u, {sym: C(1 - v)}) is not C(1 - v) for u in ups):
            continue
        for i, u in enumerate(ups):
            if out[i] is None:
                continue
            if L.conts[i][0].get(sym) == 1 - v:
                out[i] = None
                continue
            w = subst(u, {sym: C(v)})
            if w.op == 'c':
                if w.a[0] != v:
                    out[i] = None
            else:
                out[i][w] = v
    return out
