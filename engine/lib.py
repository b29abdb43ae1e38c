"""Rule support: obligations, reporting, and queries over analysis results."""
import json, os, re, sys, time
from .terms import *
from .mir import Prog
from .interp import Interp, Stop, Ev, trace_list, proj, sel
from . import ops, build


def S(n):
    return mk('sym', n)


def rel(site):
    if not site:
        return '?'
    f = site[0]
    if f.startswith('/repo/'):
        f = f[6:]
    return '%s:%s (%s)' % (f, site[1], site[2])


class Ctx:
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.obs = []          # (rule, instance, ok, detail, site)
        self.runs = {}
        self.once = {}
        self.visited = set()
        self.paths = 0
        self.loops = 0
        self.notes = []
        self._P = None
        self.extra = {}

    @property
    def P(self):
        if self._P is None:
            self._P = Prog(build.mir())
        return self._P

    # ---- obligations
    def ob(self, rule, inst, ok, detail='', site=None):
        if site is None and not ok and self.runs.get((inst, None)):
            site = self.runs[(inst, None)].fnsite()
        self.obs.append((rule, inst, bool(ok), str(detail or ''), site))
        return bool(ok)

    def need(self, rule, inst, n, floor):
        """fail closed when fewer instances are found than were counted by hand"""
        self.ob('floor:' + rule, inst, n >= floor, 'found %d instance(s), at least %d expected' % (n, floor))

    # ---- analysis
    def run(self, root, args=None, setup=None, tag=None, split=False):
        """analyse an entry point; split: keep paths apart even where they give the same result"""
        k = (root, (tag, split) if split else tag)
        if k in self.runs:
            return self.runs[k]
        fid = self.P.roots.get(root)
        if fid is None:
            self.ob('anchor', root, False, 'probe root is missing from the MIR dump')
            return None
        I = Interp(self.P)
        I.nomerge = split
        I.summaries = getattr(self, 'summaries', I.summaries)
        I.maxsteps = getattr(self, 'maxsteps', I.maxsteps)
        try:
            rs = I.run_root(root, args, setup)
        except Stop as e:
            self.ob('analysable', root, False, 'inconclusive: %s' % e, getattr(e, 'site', None))
            self.runs[k] = None
            return None
        except (RecursionError, IndexError, KeyError, AttributeError, TypeError, ValueError, AssertionError) as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            self.ob('analysable', root, False, 'inconclusive: %s: %s' % (type(e).__name__, e))
            self.runs[k] = None
            return None
        self.visited |= I.visited
        self.paths += len(rs)
        self.loops += len(I.loops)
        r = Run(self, root, I, rs)
        self.runs[k] = r
        if I.unknown:
            self.ob('closed-world', root, False, 'calls with unmodelled effects: %s' % ', '.join(sorted(str(x) for x in I.unknown))[:300])
        self.statics(root, I)
        return r

    def statics(self, root, I):
        """a static that is initialised on first use is analysed as if every use were the first: this needs the
        value not to depend on who comes first"""
        for a, p, v, site in I.static_inits:
            free = [x for x in subterms(v) if x.op in ('sym', 'val', 'ptr', 'loc', 'static') and 'available_parallelism' not in show(x)]
            by = self.once.setdefault((a, p), {})
            by.setdefault(site, set()).add(v)
            same = len(by) == 1 or len({frozenset(x) for x in by.values()}) == 1
            if free or not same:
                self.ob('static-once', root, False, 'the value kept in a static depends on which call comes first: %s' % show(v)[:150], site)

    def roots(self, rx):
        return [n for n in self.P.roots if re.fullmatch(rx, n)]

    def repo_fns(self):
        P = self.P
        return sorted({P.fns[f]['d'] for f in self.visited if '/repo/' in P.files.get(P.fns[f]['sp'][0] if isinstance(P.fns[f]['sp'], list) else -1, '')})


class Run:
    def __init__(self, cx, name, I, rs):
        self.cx, self.name, self.I, self.rs = cx, name, I, rs
        self.ret = [Path(self, *r) for r in rs if r[0] == 'ret']
        self.pan = [Path(self, *r) for r in rs if r[0] != 'ret']

    def fnsite(self):
        """the last library function the root calls (for reports)"""
        P = self.cx.P
        f = P.fns[P.roots[self.name]]
        best = None
        for b in f['blocks']:
            t = b['t']
            if t and t[0] == 'call' and isinstance(t[1], int):
                g = P.fns[t[1]]
                if P.files.get(g['sp'][0], '').startswith('/repo/') and g['kind'] == 'item':
                    best = (P.files[g['sp'][0]], g['sp'][1], g['d'])
        return best


class Path:
    def __init__(self, run, kind, st, val, site):
        self.run, self.kind, self.st, self.val, self.site = run, kind, st, val, site
        self.trace = trace_list(st.trace)
        self.facts = st.facts
        # with what terms are not, and their bounds
        self.full = {**st.facts, **{('not', t): v for t, v in st.neg.items()}, **{('in', t): v for t, v in st.iv.items()}}

    def flat(self, kinds=None):
        """events in order; loop bodies appear as ('loop', info)"""
        return [e for e in self.trace if kinds is None or e.kind in kinds]

    def every(self, kinds=None):
        """all events including those of summarised loop bodies (each possible iteration)"""
        out = []

        def go(tr):
            for e in tr:
                if e.kind == 'loop':
                    for f, t, s in self.run.I.loops[e.x].conts:
                        go(t)
                elif kinds is None or e.kind in kinds:
                    out.append(e)
        go(self.trace)
        return out

    def known(self, t):
        return self.facts.get(t)


# ---------------------------------------------------------------- effects on cells
class W:
    """one update of a cell: where, old value, new value, how"""
    def __init__(self, loc, old, new, how, site=None, created=False):
        self.loc, self.old, self.new, self.how, self.site, self.created = loc, old, new, how, site, created

    def __repr__(self):
        return '%s %s: %s -> %s' % (self.how, show(self.loc), '?' if self.old is None else show(self.old), show(self.new))


def atomic_writes(I, facts, trace):
    """updates made through atomics, in order. cas counts only where it succeeded"""
    out = []
    for e in trace:
        if e.kind != 'atomic' or e.name in ('load', 'fence'):
            continue
        p = e.args[0]
        if e.name in ('cas', 'casweak'):
            ok = facts.get(mk('casok', e.res))
            if ok == 0:
                continue
            if ok is None:
                out.append(W(p, None, mk('op', 'maybe', e.args[2]), e.name, e.site))
            else:
                out.append(W(p, e.args[1], e.args[2], e.name, e.site))
        elif e.name == 'store':
            out.append(W(p, None, e.args[1], 'store', e.site))
        else:
            f = {'xadd': lambda a, b: add(64, a, b), 'xsub': lambda a, b: sub(64, a, b), 'xchg': lambda a, b: b}.get(e.name)
            out.append(W(p, e.res, f(e.res, e.args[1]) if f else ops.op('at' + e.name, e.res, e.args[1]), e.name, e.site))
    return out


def diff(facts, old, new, path=()):
    """leaves at which two values differ: [(path, old or None if created, new)]"""
    if old is new:
        return []
    if new.op == 'sto':
        return diff(facts, old, new.a[0], path) + diff(facts, sel(old, new.a[1]), new.a[2], path + (('i', new.a[1]),)) if not created_at(old, new) else \
            diff(facts, old, new.a[0], path) + diff(facts, sel(new.a[0], new.a[1]), new.a[2], path + (('i', new.a[1]),))
    if new.op == 'op' and new.a[0] == 'ins':
        return diff(facts, old, new.a[1], path) + [(path + (('ins', new.a[2]),), None, new.a[3])]
    if new.op == 'op' and new.a[0] == 'rm':
        return diff(facts, old, new.a[1], path)
    if new.op == 'agg':
        v, n = new.a[0], len(new.a) - 1
        if old.op == 'agg':
            if old.a[0] != v or len(old.a) != len(new.a):
                return [(path, None, new)]
        elif v != 0:
            if facts.get(ops.op('discr', old)) != v:
                return [(path, None, new)]
            out = []
            for i in range(n):
                e = ('v', v, i, n)
                out += diff(facts, proj(old, e), new.a[i + 1], path + (e,))
            return out
        elif n == 0:
            return [(path, old, new)]
        elif facts.get(ops.op('discr', old)) not in (None, 0):
            return [(path, None, new)]
        out = []
        for i in range(n):
            e = ('f', i, n)
            out += diff(facts, proj(old, e), new.a[i + 1], path + (e,))
        return out
    if new.op == 'arr':
        out = []
        for i, x in enumerate(new.a):
            out += diff(facts, sel(old, C(i)), x, path + (('i', C(i)),))
        return out
    return [(path, old, new)]


def created_at(old, new):
    """is the element stored by this sto one inserted after `old`?"""
    h = new.a[0]
    while h.op == 'sto':
        h = h.a[0]
    return h.op == 'op' and h.a[0] == 'ins'


def mem_writes(p, only=None):
    """final difference of every caller-visible location"""
    out = []
    st = p.st
    for alloc, v in st.mem.items():
        if alloc.op == 'loc' or v.op == 'undef':
            continue
        if alloc.op not in ('deref',):
            continue
        if only and not only(alloc):
            continue
        old = mk('val', alloc.a[0])
        for path, o, n in diff(p.facts, old, v):
            out.append(W(ptr(alloc, path, None), o, n, 'exclusive', None, o is None))
    return out
