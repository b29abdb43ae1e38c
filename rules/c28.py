"""The structure of what a collection writes, for arbitrary runtimes: families delimited by their help;
inside a family the loop over the registered runtimes (every element, in order); inside it the samples
and the loops over workers and buckets, whose iteration ranges are established from their induction
variable and exit condition. Each sample must be the pair (labels, statistic) the family stands for,
with the runtime's own name, the worker's own index and the bucket's own bound; bucket values must be
the running total of the bucket counts. Registration appends exactly the given runtime and name."""
TECHNIQUE = 'path-sensitive dataflow over MIR with loop summaries (induction ranges, accumulators) against the table of runtime statistics'
NOTE = 'tokio readings are opaque functions of the runtime, the worker and the bucket'
from engine.lib import *
from .collectors import *
from .iters import iterations

A0, A1 = S('arg0'), S('arg1')


def px(n, *a):
    return ops.op('px', 'sys_' + n, *a)


OK = lambda t: proj(t, ('v', 0, 0, 1))
SOME = lambda t: proj(t, ('v', 1, 0, 1))
B = lambda s: bytes_term(s.encode())

# family -> [(in the worker loop?, suffix, metric kind, labels (name, kind, value), statistic)]
W, N = True, False


def stat(n):
    return lambda rt, w: px(n, rt, *([w] if w is not None else []))


def secs(n):
    return lambda rt, w: ops.op('secs', px(n, rt, w))


wlab = [('worker', 'int', lambda w: w)]
TABLE = {
    'threads': [(N, '', 'gauge', [('kind', 'str', 'worker')], stat('num_workers')),
                (N, '', 'gauge', [('kind', 'str', 'blocking')], None),
                (N, '', 'gauge', [('kind', 'str', 'idle')], stat('num_idle_blocking_threads'))],
    'active_tasks': [(N, '', 'gauge', [], stat('active_tasks_count'))],
    'queued_tasks': [(N, '', 'gauge', [('kind', 'str', 'blocking')], stat('blocking_queue_depth')),
                     (N, '', 'gauge', [('kind', 'str', 'injection')], stat('injection_queue_depth')),
                     (W, '', 'gauge', [('kind', 'str', lambda w: ops.op('itoa', 'u', 64, w))], stat('worker_local_queue_depth'))],
    'scheduled_tasks_total': [(W, '', 'counter', wlab + [('overflow', 'str', 'false')], stat('worker_local_schedule_count')),
                              (W, '', 'counter', wlab + [('overflow', 'str', 'true')], stat('worker_overflow_count')),
                              (N, '', 'counter', [('worker', 'str', 'remote'), ('overflow', 'str', 'true')], stat('remote_schedule_count'))],
    'budget_forced_yield_count': [(N, '', 'counter', [], stat('budget_forced_yield_count'))],
    'worker_mean_poll_time_seconds': [(W, '', 'float', wlab, secs('worker_mean_poll_time'))],
    'worker_noop_count': [(W, '', 'counter', wlab, stat('worker_noop_count'))],
    'worker_park_count': [(W, '', 'counter', wlab, stat('worker_park_count'))],
    'worker_steal_count': [(W, '', 'counter', wlab, stat('worker_steal_count'))],
    'worker_steal_operations_count': [(W, '', 'counter', wlab, stat('worker_steal_operations'))],
    'worker_poll_time_seconds': [(W, '_count', 'counter', wlab, stat('worker_poll_count')),
                                 (W, '_sum', 'float', wlab, secs('worker_total_busy_duration'))],
    'registered_fds_total': [(N, '', 'counter', [], stat('io_driver_fd_registered_count'))],
    'deregistered_fds_total': [(N, '', 'counter', [], stat('io_driver_fd_deregistered_count'))],
    'io_ready_events_total': [(N, '', 'counter', [], stat('io_driver_ready_count'))],
}
HIST = 'worker_poll_time_seconds'


def segments(trace):
    """the trace as a list of ('calls', events) and ('loop', id)"""
    out = []
    for e in trace:
        if e.kind == 'loop':
            out.append(('loop', e.x))
        elif e.kind == 'px':
            if not out or out[-1][0] != 'calls':
                out.append(('calls', []))
            out[-1][1].append(e)
    return out


class Family:
    def __init__(self, cx, root, I, nm, place):
        self.cx, self.root, self.I, self.nm, self.place = cx, root, I, nm, place
        self.inst = '%s %s' % (root, nm)

    def bad(self, rule, why):
        self.cx.ob(rule, self.inst, False, why)
        return False

    def ok(self, rule, c, why=''):
        return self.cx.ob(rule, self.inst, c, why)

    # ---- the samples of one runtime
    def runtime(self, elem, facts, trace):
        self.elem, self.rt, self.name = elem, proj(elem, self.place[0]), proj(elem, self.place[1])
        plain = []
        seen = {i: 0 for i, s in enumerate(TABLE[self.nm])}
        loops = 0
        n = px('num_workers', self.rt)
        for i, (k, x) in enumerate(segments(trace)):
            if k == 'calls':
                got = calls(x, A1)
                if not self.ok('whole-calls', got is not None, 'the calls made for a runtime are not recognised'):
                    return
                for c in got:
                    self.sample(c, facts, None, seen)
                continue
            loops += 1
            its = iterations(self.I, facts, [], x, n)
            if not self.ok('every-worker', its is not None and not its[1], 'a loop does not go over the workers 0..num_workers'):
                return
            body = []
            for fx, tr in its[0]:
                got = {j: 0 for j in seen}
                self.worker(fx, tr, self.I.loops[x].k, got)
                body.append(got)
            for j in seen:
                ns = {b[j] for b in body}
                if self.ok('every-worker', len(ns) == 1, 'a statistic is left out for some workers'):
                    seen[j] += ns.pop()
        for j, s in enumerate(TABLE[self.nm]):
            self.ok('every-statistic', seen[j] == 1, '%s%s %s is written %d times for a runtime' % (self.nm, s[1], [l[2] for l in s[3] if isinstance(l[2], str)], seen[j]))

    def worker(self, facts, trace, w, seen):
        before = True
        for k, x in segments(trace):
            if k == 'calls':
                got = calls(x, A1)
                if not self.ok('whole-calls', got is not None, 'the calls made for a worker are not recognised'):
                    return
                for c in got:
                    self.sample(c, facts, w, seen)
                before = before and not got
                continue
            if not self.ok('buckets-first', self.nm == HIST and before, 'a repeated sample comes after the count and sum, or in a family without buckets'):
                return
            its = iterations(self.I, facts, [], x, px('poll_count_histogram_num_buckets', self.rt))
            if not self.ok('every-bucket', its is not None and not its[1], 'a loop does not go over the buckets 0..num_buckets'):
                return
            for fx, tr in its[0]:
                self.bucket(x, fx, tr, w)
            before = False
        if self.nm == HIST and not any(k == 'loop' for k, x in segments(trace)):
            self.ok('every-bucket', facts.get(px('poll_count_histogram_enabled', self.rt)) == 0, 'the buckets are left out although they may be recorded')

    def bucket(self, lid, facts, trace, w):
        L = self.I.loops[lid]
        b = L.k
        got = calls([e for e in trace if e.kind in ('px', 'loop')], A1)
        if not self.ok('every-bucket', got is not None and len(got) == 1, 'an iteration over the buckets does not write one sample'):
            return
        c = got[0]
        cnt = px('poll_count_histogram_bucket_count', self.rt, w, b)
        # the running total: starts at zero, grows by the bucket's count, and includes it when written
        tot = [sym for kind, where, init, sym, ups in L.leaves if kind == 'lv' and init is C0 and all(u is add(64, sym, cnt) for u in ups)]
        v = c.args[0]
        self.ok('cumulative', c.kind == 'counter' and any(v is add(64, t, cnt) for t in tot), 'a bucket reports %s, not the total up to and including it' % show(v)[:150])
        self.ok('name', c.name == [(self.nm + '_bucket').encode()] and c.sized, 'a bucket is named %s' % text(c.name))
        end = proj(px('poll_count_histogram_bucket_range', self.rt, b), ('f', 1, 2))
        parts = [self.equal(L, facts, trace, proj(end, ('f', i, 2)), k) for i, k in ((0, 18446744073), (1, 709551615))]
        ns = facts.get(ops.eq(ops.op('nanos', end), C(2 ** 64 - 1)))
        infinite = True if parts == [1, 1] or ns == 1 else False if 0 in parts or ns == 0 else None
        les = [(k, x) for n, k, x in c.labels if n is B('le')]
        if self.ok('own-bound', len(les) == 1 and les[0][0] == 'float', 'a bucket has no single upper bound label'):
            x = les[0][1]
            good = infinite and fconst(float('inf')) is x or infinite is False and x is ops.op('secs', end)
            self.ok('own-bound', bool(good), 'the bound of a bucket is given as %s' % show(x)[:120])
        self.labels(c, facts, [('worker', 'int', lambda w: w)], w, ('le',))

    def equal(self, L, facts, trace, t, k):
        r = facts.get(ops.eq(t, C(k)))
        if r is None and t in facts:
            r = int(facts[t] == k)
        if r is None and any(tr is trace and k in st.neg.get(t, ()) for fx, tr, st in L.conts):
            r = 0
        return r

    # ---- one sample
    def labels(self, c, facts, want, w, skip=()):
        d = facts.get(ops.op('discr', self.name))
        rest = [l for l in c.labels if l[0] is not B('runtime') and not any(l[0] is B(s) for s in skip)]
        mine = [l for l in c.labels if l[0] is B('runtime')]
        if mine:
            cow = SOME(self.name)
            k = facts.get(ops.op('discr', cow))
            good = len(mine) == 1 and mine[0][1] == 'str' and d == 1
            x = mine[0][2]
            if k == 0:
                good = good and x is OK(cow)
            elif k == 1:
                st = SOME(cow)
                good = good and x.op == 'slc' and x.a[1] is C0 and x.a[2] is proj(st, ('f', 1, 2)) and x.a[0].op == 'val' and contains(x.a[0], lambda t: t is proj(st, ('f', 0, 2)))
            else:
                good = False
            self.ok('runtime-name', good, 'the runtime label is %s' % [show(m[2])[:100] for m in mine])
        else:
            self.ok('runtime-name', d == 0, 'a sample of a named runtime does not carry its name')
        return self.matches(rest, want, w)

    def matches(self, rest, want, w):
        if len(rest) != len(want):
            return False
        for n, k, v in want:
            ls = [l for l in rest if l[0] is B(n)]
            t = v(w) if callable(v) else B(v)
            if len(ls) != 1 or ls[0][1] != k or t is None or ls[0][2] is not t:
                return False
        return True

    def sample(self, c, facts, w, seen):
        if c.kind == 'help':
            return self.bad('one-help', 'help is written among the samples')
        hits = []
        for j, (inw, suf, kind, want, st) in enumerate(TABLE[self.nm]):
            if inw != (w is not None):
                continue
            rest = [l for l in c.labels if l[0] is not B('runtime')]
            if c.name == [(self.nm + suf).encode()] and self.matches(rest, want, w):
                hits.append((j, kind, want, st))
        if not self.ok('own-labels', len(hits) == 1 and c.sized, 'an undocumented sample is written: %s' % c):
            return
        j, kind, want, st = hits[0]
        seen[j] += 1
        self.labels(c, facts, want, w)
        v = c.args[0]
        if st is None:
            nb, idle = px('num_blocking_threads', self.rt), px('num_idle_blocking_threads', self.rt)
            less = facts.get(ops.ult(64, nb, idle))
            good = less == 1 and v is C0 or less == 0 and v is sub(64, nb, idle)
        else:
            good = v is st(self.rt, w)
        self.ok('own-statistic', good and c.kind == kind, '%s reports %s as %s' % (text(c.name), show(v)[:150], c.kind))


def shape(cx):
    """where a collector keeps its runtime and its name, read off the constructors"""
    r = cx.run('coll::root_runtime_new', split=True)
    if r is None or len(r.ret) != 1:
        return None
    v = r.ret[0].val
    ps = [('f', i, 2) for i in range(2)]
    a = [e for e in ps if proj(v, e) is A0]
    if not cx.ob('registers', 'coll::root_runtime_new', len(a) == 1 and not r.pan, 'a new collector does not hold the given runtime'):
        return None
    b = [e for e in ps if e != a[0]][0]
    n = proj(v, b)
    cx.ob('registers', 'coll::root_runtime_new name', n.op == 'agg' and n.a[0] == 0, 'a new collector has a name')
    return a[0], b


def build(place, rt, name):
    x = [None, None]
    x[place[0][1]], x[place[1][1]] = rt, name
    return agg(0, tuple(x))


def registration(cx, place):
    own = lambda s: agg(1, (agg(1, (s,)),))
    lit = lambda s: agg(1, (agg(0, (s,)),))
    cur = px('metrics', px('current'))
    none = agg(0, ())
    for root, want in (('runtime_current', build(place, cur, none)), ('runtime_named', build(place, proj(A0, place[0]), own(A1))), ('runtime_named_str', build(place, proj(A0, place[0]), lit(A1)))):
        root = 'coll::root_' + root
        r = cx.run(root, split=True)
        if r is not None:
            cx.ob('registers', root, len(r.ret) == 1 and r.ret[0].val is want and not r.pan, 'the collector made is %s' % [show(p.val)[:200] for p in r.ret])
    out = set()
    for root, rt, nm in (('named_add', A1, S('arg2')), ('named_add_current', cur, A1)):
        root = 'coll::root_' + root
        r = cx.run(root, split=True)
        if r is None:
            continue
        new = build(place, rt, own(nm))
        for p in r.ret:
            locks = [e for e in p.trace if e.kind == 'lock']
            cx.ob('locked-once', root, [e.name for e in locks] == ['std_write', 'std_unwrite'], 'the list is changed with %s' % [e.name for e in locks])
            buf = [(a, v) for a, v in p.st.mem.items() if v.op == 'sto']
            ok = len(buf) == 1 and buf[0][1].a[0].op == 'val' and buf[0][1].a[2] is new
            if not cx.ob('appends', root, ok, 'the runtime is not stored as given: %s' % [show(v)[:200] for a, v in buf]):
                continue
            D, at = buf[0][1].a[0], buf[0][1].a[1]
            me = [v for a, v in p.st.mem.items() if a.op == 'sym' and a is A0]
            lens = [x for a, v in p.st.mem.items() if a.op != 'loc' for x in subterms(v) if x is add(64, at, C(1))]
            cx.ob('appends', root + ' end', contains(at, lambda x: x is mk('val', A0)) and bool(lens), 'the runtime is not appended at the end of the list')
            out.add((D, at))
    for root in ('named_new', 'named_default'):
        root = 'coll::root_' + root
        r = cx.run(root, split=True)
        if r is not None:
            v = r.ret[0].val if len(r.ret) == 1 else None
            fresh = v is not None and not contains(v, lambda x: x.op in ('sym', 'px'))
            cx.ob('registers', root, fresh and bool(out) and all(subst(at, {mk('val', A0): v}) is C0 for D, at in out), 'a new collection is not empty')
    cx.ob('appends', 'same list', len(out) == 1, 'the two ways to register use different lists')
    return out.pop() if len(out) == 1 else None


def collection(cx, root, place, lst):
    r = cx.run(root, split=True)
    if r is None:
        return 0
    I = r.I
    me = mk('val', A0)
    done = 0
    for p in r.ret:
        if not (p.val.op == 'agg' and p.val.a[0] == 0) and p.facts.get(ops.op('discr', p.val)) == 1:
            continue
        if p.val.op == 'ev' and p.facts.get(ops.op('discr', p.val)) is None:
            # the last call's own result: a success of it completes the collection
            pass
        elif not (p.val.op == 'agg' and p.val.a[0] == 0):
            continue
        fams, cur = [], None
        okk = True
        for k, x in segments(p.trace):
            if k == 'loop':
                if cur is None:
                    okk = False
                    break
                cur[1].append(('loop', x))
                continue
            # split at helps
            part = []
            for e in x:
                if e.name == 'px_begin_help':
                    part.append(('help', []))
                elif not part:
                    part.append(('more', []))
                if e.name == 'px_begin_sample' and part[-1][0] == 'help':
                    part.append(('more', []))
                part[-1][1].append(e)
            for kind, evs in part:
                if kind == 'help':
                    h = calls(evs, A1)
                    if h is None or len(h) != 1:
                        okk = False
                        break
                    cur = (h[0], [])
                    fams.append(cur)
                elif cur is None:
                    okk = False
                    break
                else:
                    cur[1].append(('calls', evs))
        if not cx.ob('whole-calls', root, okk, 'samples come before the first help, or calls are not recognised'):
            continue
        names = [f[0].name[0].decode() if len(f[0].name) == 1 and isinstance(f[0].name[0], bytes) else text(f[0].name) for f in fams]
        for nm, (h, items) in zip(names, fams):
            inst = '%s %s' % (root, nm)
            if not cx.ob('documented', inst, nm in TABLE, 'writes a family with the undocumented name %s' % nm):
                continue
            cx.ob('one-help', inst, names.count(nm) == 1 and h.sized and h.args and h.args[0].op == 'bytes' and len(h.args[0].a[0]) > 0, 'the family has %d help texts' % names.count(nm))
            fam = Family(cx, root, I, nm, place)
            trace = [e for k, x in items for e in (x if k == 'calls' else [Ev('loop', 'loop', (), None, None, x)])]
            if lst is None:
                fam.runtime(elem_of(me, place, trace, I), p.facts, trace)
                done += 1
                continue
            D, n = lst
            loops = [x for k, x in items if k == 'loop']
            if not cx.ob('every-runtime', inst, len(loops) == 1 and len(items) == 1, 'the samples of a family are not those of one pass over the registered runtimes'):
                continue
            its = iterations(I, p.facts, [], loops[0], n)
            if not cx.ob('every-runtime', inst, its is not None and not its[1], 'the pass does not go over all registered runtimes'):
                continue
            elem = sel(D, I.loops[loops[0]].k)
            for fx, tr in its[0]:
                fam.runtime(elem, fx, tr)
                done += 1
        for nm in TABLE:
            cx.ob('every-family', '%s %s' % (root, nm), nm in names, 'the family %s is not collected' % nm)
    return done


def elem_of(me, place, trace, I):
    """a single collector seen as itself or as the only element of a slice"""
    one = sel(me, C0)
    rt = proj(one, place[0])
    def used(tr):
        for e in tr:
            if e.kind == 'loop':
                if any(used(t) for fx, t, s in I.loops[e.x].conts):
                    return True
            elif any(isinstance(a, T) and contains(a, lambda t: t is rt) for a in e.args):
                return True
        return False
    return one if used(trace) else me


def run(cx):
    place = shape(cx)
    if place is None:
        return
    lst = registration(cx, place)
    a = collection(cx, 'coll::root_runtime_collect', place, None)
    b = collection(cx, 'coll::root_named_collect', place, lst) if lst else 0
    cx.need('every-statistic', 'runtimes', a, 14)
    cx.need('every-statistic', 'registered runtimes', b, 14)
    r = cx.run('coll::root_named_collect', split=True)
    for p in r.ret if r else []:
        locks = [e.name for e in p.trace if e.kind == 'lock']
        cx.ob('locked-once', 'coll::root_named_collect', locks == ['std_read', 'std_unread'], 'the list is read with %s' % locks)
