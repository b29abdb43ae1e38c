"""The life of a timer, from starting it to observing, dropping or forgetting it, is analysed as one
entry point per end, for plain and labelled histograms and for 0, 1, 3 and 40 thresholds. On every
path an observed or dropped timer makes exactly one observation, of the seconds elapsed since the
clock reading made at its start, in the histogram a direct observation through the same handle would
update; a forgotten one updates nothing. The same is shown for explicit durations and instants."""
TECHNIQUE = 'path-sensitive value-flow and effect dataflow over MIR'
from .hist import *

TIMERS = r'metrics::h\d+::root_v?timer_(observe|drop|forget)'
EXPLICIT = r'metrics::h\d+::root_(guard|gmut|vec)_(dur|since)'


def base_set(cx, root):
    r = cx.run(root, split=True)
    out = set()
    for p in r.ret if r else []:
        o, why = observation(p)
        if o:
            out.add(o.base)
    return out


def run(cx):
    n = m = 0
    for root in cx.roots(TIMERS + '|' + EXPLICIT):
        r = cx.run(root, split=True)
        if r is None:
            continue
        h, fn = root.rsplit('::', 1)
        vec = fn.startswith('root_v')
        if not vec:
            cx.ob('no-panic', root, not r.pan, 'may panic: %s' % (r.pan[0].val if r.pan else ''), r.pan[0].site if r.pan else None)
        cx.ob('returns', root, r.ret, 'no path returns')
        if fn.endswith('forget'):
            n += 1
            for p in r.ret:
                sh, ex = writes(p)
                ws = sh + ex
                for e in p.trace:
                    if e.kind == 'loop':
                        ws += [w for f, t, s in r.I.loops[e.x].conts for w in writes(p, f, t)[0]]
                cx.ob('forget-records-nothing', root, not ws, 'a forgotten timer updates %s' % (show(ws[0].loc)[:160] if ws else ''), ws[0].site if ws else None)
            continue
        timer = 'timer' in fn
        n += timer
        m += not timer
        like = base_set(cx, h + ('::root_vec_observe' if vec else '::root_gmut_observe' if 'gmut' in fn else '::root_observe'))
        for p in r.ret:
            o, why = observation(p)
            if not cx.ob('exactly-once', root, o is not None, why):
                continue
            cx.ob('own-histogram', root, o.base in like, 'records into %s, where a direct observation does not' % show(o.base)[:200], o.site)
            el = [e for e in p.trace if e.kind == 'time' and e.name == 'elapsed']
            if timer:
                now = [e for e in p.trace if e.kind == 'time' and e.name == 'now']
                ok = len(now) == 1 and len(el) == 1 and inst(p, el[0]) is now[0].res
                cx.ob('elapsed-since-start', root, ok, 'the time recorded is not taken from the start of the timer: %s' % [str(e)[:80] for e in now + el], o.site)
            elif fn.endswith('since'):
                last = S('arg%d' % (2 if vec else 1))
                ok = len(el) == 1 and inst(p, el[0]) is last
                cx.ob('elapsed-since-start', root, ok, 'the time recorded is not that since the given instant', o.site)
            v = value_of(root, cx, p)
            if cx.ob('in-seconds', root, v is not None and o.val is v, 'records %s, not the duration in seconds' % show(o.val)[:120], o.sw.site) and (fn.endswith('since') or fn.endswith('timer_observe')):
                cx.ob('returns-recorded', root, len(el) == 1 and p.val is el[0].res, 'returns %s, not the duration recorded' % show(p.val)[:120], o.site)
    cx.need('timer-ends', 'roots', n, 24)
    cx.need('explicit-routes', 'roots', m, 24)


def inst(p, e):
    a = e.args[0]
    if a.op == 'ptr' or a.op in ('loc',):
        return a
    return a
