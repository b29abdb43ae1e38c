"""Every path of the collector, for arbitrary answers of the kernel: which families are written, under
which name and help, with which value, and for whom, is read off the path and compared with the
kernel reading each family stands for; a family is there exactly when its reading is. The same for
the start time computed by the constructors. The tick rate and the page size are terms, not numbers."""
TECHNIQUE = 'path-sensitive dataflow over MIR: value of every written sample as a function of the kernel readings'
NOTE = 'procfs and libc calls are opaque readings; the tick rate is taken to be positive'
from engine.lib import *
from .collectors import *

A0, A1 = S('arg0'), S('arg1')


def px(n, *a):
    return ops.op('px', 'sys_' + n, *a)


def field(cx, adt, name, t):
    for d in cx.P.tys.values():
        if d['t'] in ('struct', 'union') and d.get('p', '').endswith(adt) and d.get('v'):
            fs = d['v'][0]['f']
            for i, f in enumerate(fs):
                if f[0] == name:
                    return proj(t, ('f', i, len(fs)))
    cx.ob('anchor', adt + '.' + name, False, 'no such field')
    return S('missing')


OK = lambda t: proj(t, ('v', 0, 0, 1))
SOME = lambda t: proj(t, ('v', 1, 0, 1))


def families(cx, pid, start):
    """name -> (help, alternatives for the value, readings needed: (term, discriminant))"""
    p = px('new', pid)
    P_ = OK(p)
    stat, lim = px('stat', P_), px('limits', P_)
    st, li = OK(stat), OK(lim)
    F = lambda n: field(cx, 'procfs_core::process::stat::Stat', n, st)
    tck, page = px('sysconf', C(2)), px('sysconf', C(30))
    mf = field(cx, 'process::limit::Limit', 'soft_limit', field(cx, 'process::limit::Limits', 'max_open_files', li))
    cpu = add(64, F('utime'), F('stime'))
    base = (p, 0)
    return {
        'open_fds': ('Number of open file descriptors.', [OK(px('fd_count', P_))], [base, (px('fd_count', P_), 0)]),
        'max_fds': ('Maximum number of open file descriptors.', [SOME(mf)], [base, (lim, 0), (mf, 1)]),
        'virtual_memory_bytes': ('Virtual memory size in bytes.', [F('vsize')], [base, (stat, 0)]),
        'resident_memory_bytes': ('Resident memory size in bytes.', [mul(64, F('rss'), page)], [base, (stat, 0)]),
        'cpu_seconds_total': ('Total user and system CPU time spent in seconds.', [ops.op(o, 64, cpu, tck) for o in ('sdiv', 'udiv')], [base, (stat, 0)]),
        'threads': ('Number of OS threads in the process.', [F('num_threads')], [base, (stat, 0)]),
        'start_time_seconds': ('Start time of the process since unix epoch in seconds.', [SOME(start)], [base, (start, 1)]),
    }


def divide_only(cx, r, root):
    for p in r.pan:
        cx.ob('no-panic', root, str(p.val).startswith('attempt to divide'), 'may panic: %s' % p.val, p.site)


def created(cx):
    n, found = 0, []
    for root, pid in (('coll::root_process_new', A0), ('coll::root_process_self', px('getpid'))):
        r = cx.run(root, split=True)
        if r is None:
            continue
        divide_only(cx, r, root)
        boot, p = px('boot_time_secs'), px('new', pid)
        st = px('stat', OK(p))
        ticks = field(cx, 'procfs_core::process::stat::Stat', 'starttime', OK(st))
        want = [add(64, OK(boot), OK_) for OK_ in (ops.op(o, 64, ticks, px('sysconf', C(2))) for o in ('sdiv', 'udiv'))]
        role = roles(r, pid)
        if not cx.ob('own-pid', root, role is not None, 'the new collector does not keep the process id it was given'):
            continue
        found.append(role)
        for q in r.ret:
            v = q.val
            n += 1
            who = proj(v, role[0])
            cx.ob('own-pid', root, who is pid, 'the collector watches %s' % show(who)[:80])
            t = proj(v, role[1])
            known = [q.facts.get(ops.op('discr', x)) for x in (boot, p, st)]
            if t.op == 'agg' and t.a[0] == 1:
                ok = SOME(t) in want
                cx.ob('start-time', root, ok, 'the start time is %s' % show(SOME(t))[:200])
                cx.ob('start-known', root, known == [0, 0, 0], 'a start time is recorded without the readings it needs')
            else:
                cx.ob('start-time', root, t.op == 'agg' and t.a[0] == 0 and 1 in known, 'no start time is kept although every reading is there')
    cx.need('own-pid', 'constructors', n, 4)
    cx.ob('own-pid', 'roles', len(set(found)) == 1, 'the constructors disagree')
    return found[0] if found else None


def roles(r, pid):
    """where a new collector keeps the process id and the start time"""
    for q in r.ret:
        if q.val.op == 'agg' and len(q.val.a[1:]) == 2 or q.val.op == 'agg' and isinstance(q.val.a[1], tuple) and len(q.val.a[1]) == 2:
            ps = [('f', i, 2) for i in range(2)]
            own = [e for e in ps if proj(q.val, e) is pid]
            if len(own) == 1:
                return own[0], [e for e in ps if e is not own[0]][0]
    return None


def run(cx):
    role = created(cx)
    if role is None:
        return
    root = 'coll::root_process_collect'
    r = cx.run(root, split=True)
    if r is None:
        return
    divide_only(cx, r, root)
    me = mk('val', A0)
    pid, start = proj(me, role[0]), proj(me, role[1])
    fam = families(cx, pid, start)
    seen, whole = set(), 0
    for p in r.ret:
        got = calls(p.trace, A1)
        if not cx.ob('whole-calls', root, got is not None, 'the calls made are not recognised'):
            continue
        # an error stops the collection and is passed on, nothing else does
        bad = [g for g in got if p.facts.get(ops.op('discr', g.res)) != 0]
        if p.val.op == 'agg' and p.val.a[0] == 0 or got and bad == [got[-1]] and p.val is got[-1].res and p.facts.get(ops.op('discr', p.val)) == 0:
            okret, bad = True, [g for g in bad if g is not got[-1] or p.val is not g.res]
            cx.ob('errors-reported', root, not bad, 'succeeds although a call may have failed')
        else:
            okret = p.val is not None and got and p.val is got[-1].res
            cx.ob('errors-reported', root, okret and bad == [got[-1]], 'fails with something other than the error of the last call, or goes on after an error')
            okret = p.facts.get(ops.op('discr', p.val)) != 1
        # families: help and sample, each once, together
        have, i = [], 0
        while i < len(got):
            h, s = got[i], got[i + 1] if i + 1 < len(got) else None
            nm = text(h.name).strip("'")
            f = fam.get(nm)
            cx.ob('documented', root + ' ' + nm, f is not None and len(h.name) == 1 and h.sized, 'writes a family with the undocumented name %s' % nm)
            if f is None:
                i += 1
                continue
            cx.ob('own-help', root + ' ' + nm, h.kind == 'help' and h.args == (bytes_term(f[0].encode()),), 'the help of %s is %s %s' % (nm, h.kind, [show(a)[:60] for a in h.args]))
            if s is not None:
                cx.ob('sample-follows', root + ' ' + nm, s.kind == 'gauge' and s.name == h.name and not s.labels, '%s is followed by %s %s' % (nm, s.kind, text(s.name)))
                v = s.args[0] if s.args else None
                cx.ob('value', root + ' ' + nm, v in f[1], '%s reports %s' % (nm, show(v)[:200] if v is not None else '?'))
                whole += 1
                seen.add(nm)
            cx.ob('once', root + ' ' + nm, nm not in have, '%s is written twice' % nm)
            need = [p.facts.get(ops.op('discr', t)) for t, k in f[2]]
            cx.ob('reading-there', root + ' ' + nm, need == [k for t, k in f[2]], '%s is written although its reading may be missing' % nm)
            have.append(nm)
            i += 2
        if not okret or (got and got[-1].kind == 'help'):
            continue
        for nm, f in fam.items():
            if nm not in have:
                need = [p.facts.get(ops.op('discr', t)) for t, k in f[2]]
                gone = any(n is not None and n != k for n, (t, k) in zip(need, f[2]))
                cx.ob('not-omitted', root + ' ' + nm, gone, '%s may be left out although the system provides it' % nm)
            else:
                cx.ob('not-omitted', root + ' ' + nm, True)
    cx.ob('static-once', root, True)
    cx.need('value', root, whole, 200)
    cx.need('documented', root, len(seen), 7)
