"""Loader for the MIR dump and type / control-flow helpers."""
import json
import re
from .terms import *

class Prog:
    def __init__(self, path):
        self.fns = {}
        self.roots = {}
        self.files = {}
        self.vts = {}
        tys = {}
        ended = False
        for l in open(path):
            d = json.loads(l)
            k = d['k']
            if k == 'ty':
                tys[d['id']] = d
            elif k == 'fn':
                self.fns[d['id']] = d
            elif k == 'root':
                if '{' not in d['n']:
                    self.roots[d['n'].removeprefix('probe::')] = d['id']
            elif k == 'vt':
                self.vts.setdefault(d['ty'], []).append((d['dyn'], d['m']))
            elif k == 'file':
                self.files[d['id']] = d['p']
            elif k == 'end':
                ended = True
        if not ended:
            raise SystemExit('truncated MIR dump')
        self.tys = tys
        self._core = {}
        self._inh = {}
        self._cfg = {}
        self._drop = {}

    def virtual(self, fe, dyn, idx):
        """the function behind entry `idx` of the table of `fe` seen as `dyn`, or None"""
        bare = lambda t: re.sub(r"'\w+", "'_", self.tys[t].get('p') or '')
        for d, m in self.vts.get(fe, ()):
            if (d == dyn or bare(d) == bare(dyn)) and idx is not None and idx < len(m):
                return m[idx]
        return None

    # ---- types
    def zst(self, t):
        return self.tys[t]['s'] == 0

    def inhabited(self, t):
        r = self._inh.get(t)
        if r is None:
            self._inh[t] = True
            d = self.tys[t]
            k = d['t']
            if k == 'never':
                r = False
            elif k == 'enum':
                r = any(all(self.inhabited(f[1]) for f in v['f']) for v in d['v'])
            elif k == 'struct':
                r = all(self.inhabited(f[1]) for f in d['v'][0]['f'])
            elif k == 'tuple':
                r = all(self.inhabited(f) for f in d['f'])
            else:
                r = True
            self._inh[t] = r
        return r

    def fields(self, t):
        d = self.tys[t]
        k = d['t']
        if k in ('struct', 'union'):
            return [f[1] for f in d['v'][0]['f']]
        if k in ('tuple', 'closure'):
            return d['f']
        return None

    def erased(self, t):
        """index of the single significant field if `t` is erased to it, else None"""
        d = self.tys[t]
        k = d['t']
        if k in ('struct', 'tuple', 'closure'):
            nz = [i for i, f in enumerate(self.fields(t)) if not self.zst(f)]
            if len(nz) == 1:
                return nz[0]
            return None
        if k == 'union':
            fs = self.fields(t)
            nz = [i for i, f in enumerate(fs) if not self.zst(f)]
            same = [i for i in nz if self.tys[fs[i]]['s'] == d['s']]
            return (same or nz or [None])[0]
        return None

    def core(self, t):
        r = self._core.get(t)
        if r is None:
            d = self.tys[t]
            if d['t'] == 'pat':
                r = self.core(d['e'])
            elif d['s'] == 0:
                r = t
            else:
                e = self.erased(t)
                r = t if e is None else self.core(self.fields(t)[e])
            self._core[t] = r
        return r

    def kind(self, t):
        return self.tys[self.core(t)]['t']

    def pointee(self, t):
        d = self.tys[self.core(t)]
        return d.get('e') if d['t'] in ('ptr', 'ref') else None

    def unsized_tail(self, t):
        """None | 'slice' | 'dyn' with element type"""
        if self.tys[t]['s'] != -1:
            return None, None
        d = self.tys[self.core(t)]
        while True:
            if d['t'] == 'str':
                return 'slice', None
            if d['t'] == 'slice':
                return 'slice', d['e']
            if d['t'] == 'dyn':
                return 'dyn', None
            fs = self.fields(d['id'])
            if not fs:
                return 'dyn', None
            d = self.tys[self.core(fs[-1])]

    def int_info(self, t):
        """(kind, width): kind in u s f b c p"""
        d = self.tys[self.core(t)]
        k = d['t']
        if k == 'uint':
            return 'u', d['w']
        if k == 'int':
            return 's', d['w']
        if k == 'float':
            return 'f', d['w']
        if k == 'bool':
            return 'u', 1
        if k == 'char':
            return 'u', 32
        if k in ('ptr', 'ref', 'fnptr'):
            return 'p', 64
        return 'o', 64

    def name(self, t):
        return self.tys[t]['n']

    # ---- control flow
    def cfg(self, fid):
        c = self._cfg.get(fid)
        if c is None:
            c = self._cfg[fid] = Cfg(self.fns[fid])
        return c

    # ---- drop glue that matters
    MEASURED = ('measured', 'probe', 'lock_api', 'parking_lot')

    def drop_matters(self, fid, stack=()):
        r = self._drop.get(fid)
        if r is not None:
            return r
        if fid in stack:
            return False
        f = self.fns[fid]
        r = False
        if f['kind'] == 'item':
            r = f['krate'].startswith(self.MEASURED) and f['krate'] != 'parking_lot_core'
            if not r and f['d'].startswith(('<std::sync::RwLock', '<std::sync::Mutex', '<std::sync::poison')) or 'SetLenOnDrop' in f['d']:
                r = True
        if not r and 'blocks' in f and (f['kind'] == 'shim' or 'Drop>::drop' in f['d'] or 'alloc' == f['krate']):
            for b in f['blocks']:
                t = b['t']
                c = None
                if t[0] == 'call' and isinstance(t[1], int):
                    c = t[1]
                elif t[0] == 'drop' and t[3] is not None:
                    c = t[3]
                if c is not None and self.drop_matters(c, stack + (fid,)):
                    r = True
                    break
        if not stack or r:
            self._drop[fid] = r
        return r


class Loop:
    __slots__ = ('head', 'body', 'fid')


class Cfg:
    def __init__(self, f):
        bl = f['blocks']
        n = len(bl)
        self.succ = [succs(b['t']) for b in bl]
        # reachable + postorder
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
                elif idx[s] <= idx[b]:
                    # irreducible edge: treat target as a loop head over the whole cycle
                    body = loops.setdefault(s, {s})
        self.loops = {}
        for h, body in loops.items():
            L = Loop()
            L.head, L.body, L.fid = h, body, f['id']
            self.loops[h] = L
        self.f = f
        self.live = None
        self.order = order

    def livein(self):
        """locals live at each block entry (a mention that is not a full overwrite is a use)"""
        if self.live is not None:
            return self.live
        f = self.f
        use, deff = {}, {}
        for b in self.order:
            u, d = set(), set()
            def usep(pl):
                if pl[0] not in d:
                    u.add(pl[0])
                for e in pl[1]:
                    if e[0] == 'i' and e[1] not in d:
                        u.add(e[1])
            def useo(o):
                if o[0] in ('cp', 'mv'):
                    usep(o[1])
            def defp(pl):
                if pl[1]:
                    usep(pl)
                else:
                    d.add(pl[0])
            blk = f['blocks'][b]
            for s in blk['s']:
                if s[0] == '=':
                    walk_rv(s[2], usep, useo)
                    defp(s[1])
                elif s[0] == 'sd':
                    usep(s[1])
                else:
                    for o in s[1:4]:
                        useo(o)
            t = blk['t']
            if t[0] == 'switch':
                useo(t[1])
            elif t[0] == 'drop':
                usep(t[1])
            elif t[0] == 'assert':
                useo(t[1])
            elif t[0] == 'call':
                if isinstance(t[1], dict) and 'op' in t[1]:
                    useo(t[1]['op'])
                for o in t[2]:
                    useo(o)
                defp(t[3])
            elif t[0] == 'ret':
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set(use[b]) for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        return live


def walk_rv(r, usep, useo):
    k = r[0]
    if k in ('addr', 'ref', 'discr', 'len'):
        usep(r[1])
    elif k == 'agg':
        for o in r[2]:
            useo(o)
    elif k in ('bin', 'chk'):
        useo(r[2]); useo(r[3])
    elif k == 'cast':
        useo(r[2])
    elif k in ('use', 'rep'):
        useo(r[1])
    elif k == 'un':
        useo(r[2])


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []
