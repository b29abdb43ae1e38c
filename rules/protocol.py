"""Typestate walk of every path: which locks are held, in which mode, and which version of the
guarded table is current, at every table operation and every use of a cell."""
from engine.lib import *
from engine.prims import strip_sto


class Held:
    def __init__(self, mode, data, ver, site):
        self.mode, self.data, self.ver, self.site = mode, data, ver, site


def prefix(p, q):
    """does place q lie inside place p?"""
    return p.op == 'ptr' and q.op == 'ptr' and p.a[0] is q.a[0] and q.a[1][:len(p.a[1])] == p.a[1]


def slots_in(t):
    """pointers into table entries occurring in a term: (pointer, table pointer, slot)"""
    out = []
    for x in subterms(t):
        if x.op != 'ptr':
            continue
        for j, e in enumerate(x.a[1]):
            if e[0] == 'i' and isinstance(e[1], T) and e[1].op == 'op' and e[1].a[0] in ('slot', 'slotp'):
                out.append((x, ptr(x.a[0], x.a[1][:j], None), e[1]))
    return sorted(set(out), key=lambda q: q[0].h)


def present(facts, ver, slot):
    """is the slot occupied in this version of the table?"""
    ver = strip_sto(ver)
    while ver.op == 'op' and ver.a[0] in ('ins', 'rm'):
        if ver.a[0] == 'ins':
            k = proj(ver.a[3], ('f', 0, 2))
            if slot.a[0] == 'slot' and slot.a[1] is ver.a[2] and slot.a[2] is k:
                return 1
        elif ver.a[2] is slot:
            return 0
        f = facts.get(ops.op('has', ver, slot))
        if f is not None:
            return f
        ver = strip_sto(ver.a[1])
    return facts.get(ops.op('has', ver, slot))


class Walk:
    def __init__(self, cx, run, inst, report):
        self.cx, self.run, self.inst, self.report = cx, run, inst, report
        self.nlocks = self.ninserts = self.nremoves = self.nuses = 0
        f = cx.P.fns[cx.P.roots[run.name]]
        self.mutargs = set()
        for i in range(f['nargs']):
            d = cx.P.tys[cx.P.core(f['locals'][i + 1])]
            if d['t'] == 'ref' and d['m'] or d['t'] not in ('ref', 'ptr'):
                self.mutargs.add('arg%d' % i)

    def r(self, rule, ok, detail, site=None):
        self.report(rule, ok, detail, site)

    def exclusive_place(self, p):
        """reached through an argument that is owned or exclusively borrowed"""
        return any(x.op == 'sym' and x.a[0] in self.mutargs for x in subterms(p))

    def guard_of(self, held, tp):
        for l, h in held.items():
            if h.data is not None and prefix(h.data, tp):
                return l, h
        return None, None

    def events(self, trace, facts, held, loopfacts=()):
        """advance `held` over a trace"""
        for e in trace:
            if e.kind == 'lock':
                self.lock(e, held)
            elif e.kind == 'table':
                self.table(e, facts, held)
            elif e.kind == 'rehash':
                l, h = self.guard_of(held, e.args[0])
                self.r('table-write-exclusive', self.exclusive_place(e.args[0]) if h is None else h.mode == 'exclusive', '%s on a shared table' % e.name, e.site)
            elif e.kind == 'loop':
                L = self.run.I.loops[e.x]
                for fx, tr, s in L.conts:
                    h2 = {k: Held(v.mode, v.data, v.ver, v.site) for k, v in held.items()}
                    self.events(tr, {**facts, **fx}, h2)
                    same = {k: v.mode for k, v in h2.items()} == {k: v.mode for k, v in held.items()}
                    self.r('balanced-loop', same, 'an iteration ends with locks %s but began with %s' % (names(h2), names(held)), L.site)
            elif e.kind in ('atomic', 'once'):
                self.use(e.args[0], facts, held, e.site)

    def use(self, p, facts, held, site):
        for x, tp, slot in slots_in(p):
            self.nuses += 1
            l, h = self.guard_of(held, tp)
            if h is None:
                self.r('cell-used-under-lock', self.exclusive_place(tp), 'a cell of a shared table is used while its lock is not held: %s' % show(x)[:200], site)
                continue
            self.r('cell-present', present(facts, h.ver, slot) == 1, 'a cell is used that is not known to be in the table since the lock was taken: %s' % show(x)[:200], site)

    def lock(self, e, held):
        l = e.args[0]
        n = e.name
        if n.startswith('lock_'):
            self.nlocks += 1
            self.r('no-reacquire', l not in held, 'acquires a lock it already holds: %s' % show(l)[:160], e.site)
            for l2, h in held.items():
                ok = h.data is not None and prefix(h.data, l)
                self.r('nesting', ok, 'acquires %s while holding %s, which does not guard it' % (show(l)[:120], show(l2)[:120]), e.site)
            held[l] = Held(n[5:], e.x[0] if e.x else None, e.x[1] if e.x else None, e.site)
        elif n.startswith('fail_'):
            pass
        elif n == 'downgrade':
            h = held.get(l)
            self.r('release-held', h is not None and h.mode == 'exclusive', 'downgrades a lock it does not hold exclusively', e.site)
            if h:
                h.mode = 'shared'
        else:
            h = held.get(l)
            if h is None and self.owned_guard(l):
                return
            self.r('release-held', h is not None and h.mode == n[7:], 'releases a lock it does not hold in that mode: %s %s' % (n, show(l)[:160]), e.site)
            held.pop(l, None)

    def owned_guard(self, l):
        """releasing the lock of a guard that was passed in"""
        return l.op != 'ptr' and any(x.op == 'sym' for x in subterms(l))

    def table(self, e, facts, held):
        tp, ver = e.args[0], strip_sto(e.x)
        l, h = self.guard_of(held, tp)
        if h is None:
            self.r('table-write-exclusive', self.exclusive_place(tp), '%s on a shared table without its lock: %s' % (e.name, show(tp)[:160]), e.site)
            cur = ver
        else:
            self.r('table-write-exclusive', h.mode == 'exclusive', '%s on a table whose lock is held %s only' % (e.name, h.mode), e.site)
            cur = strip_sto(h.ver)
            self.r('current-version', root_version(ver) is root_version(cur), '%s acts on a stale view of the table' % e.name, e.site)
        if e.name == 'insert':
            self.ninserts += 1
            k = proj(e.args[2], ('f', 0, 2)) if e.args[2].op == 'agg' else mk('fld', e.args[2], 0, 2)
            slot = ops.op('slot', e.args[1], k)
            self.r('insert-only-absent', present(facts, ver, slot) == 0,
                   'inserts a cell without having found, since the exclusive lock was taken, that the key is absent under the hash it is inserted with', e.site)
            nv = ops.op('ins', ver, e.args[1], e.args[2])
        else:
            self.nremoves += 1
            self.r('remove-present', present(facts, ver, e.args[1]) == 1, 'removes an entry not known to be present', e.site)
            nv = ops.op('rm', ver, e.args[1])
        if h is not None:
            h.ver = nv

    def path(self, p):
        held = {}
        self.events(p.trace, p.facts, held)
        return held


def root_version(v):
    v = strip_sto(v)
    while v.op == 'op' and v.a[0] in ('ins', 'rm'):
        v = strip_sto(v.a[1])
    return v


def names(held):
    return '{%s}' % ', '.join('%s %s' % (h.mode, show(l)[:80]) for l, h in held.items())


def returned_guards(val):
    """raw locks whose release is the duty of the returned value: pointers to a lock inside it"""
    out = set()
    for x in subterms(val):
        if x.op == 'ptr' and x.a[1] and x.a[1][-1] == ('f', 0, 2):
            out.add(x)
    return out
