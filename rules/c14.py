"""Every text exposition follows the line grammar. Every byte stream an encoder call can write is run
through an automaton of the format, from every state the encoder's own memory can be in; loops are
taken to a fixpoint over their variables."""
TECHNIQUE = 'value-flow dataflow over MIR paths; abstract interpretation of the output in the product of a format automaton and the encoder memory'
from .textgram import *

KINDS = r'root_(counter|gauge|fgauge|hist0|hist1|hist3)'
ROOTS = r'text::(root_(help|help_two|ty|ty_two|ty_counter|ty_gauge|ty_fgauge|ty_hist|flush|counter_two|hist3_two|met_counter|met_hist|fam_counter)|g0::%s|nl::root_(counter|hist1)|g1::%s|g1i::%s|g1f::root_(counter|hist0)|g2::root_(counter|hist1)|g3::root_counter|gn::root_(counter|gauge|fgauge))' % (KINDS, KINDS, KINDS)
BROOTS = r'text::root_b(finish|help|ty|counter|gauge|fgauge|hist)'
QUICK_ONLY = r'text::(.*hist3.*|root_fam_counter|g3.*|gn::root_(gauge|fgauge))'


def explore(cx, new, roots, writer, floor):
    r = cx.run(new)
    if r is None or not cx.ob('new', new, len(r.ret) == 1, 'a new encoder has no single state'):
        return
    enc = Encoder(r.ret[0].val, writer)
    if not cx.ob('new', new, len(enc.writer) == 1, 'the writer of a new encoder was not found'):
        return
    arg = S('arg0')
    streams = {}
    for root in roots:
        r = cx.run(root)
        if r is None:
            continue
        try:
            streams[root] = [(p, s.items) for p, s in path_streams(r)]
            cx.ob('stream', root, True)
        except Bad as b:
            cx.ob('stream', root, False, str(b), b.site)
    cx.need('stream', new, len(streams), floor)
    seen = {(enc.initial(), 'start')}
    todo = list(seen)
    n = 0
    bad = set()
    while todo:
        st, q = todo.pop()
        asm = enc.assume(st, arg)
        for root, ps in streams.items():
            for p, items in ps:
                if not feasible(p.facts, asm):
                    continue
                n += 1
                try:
                    ends = run_items(items, {(q, frozenset(asm.items()))}, p.facts)
                except Bad as b:
                    if (root, str(b)) not in bad:
                        bad.add((root, str(b)))
                        cx.ob('grammar', root, False, str(b), b.site)
                    continue
                for q2, env in ends:
                    e = dict(env)
                    if not feasible(p.facts, e):
                        continue
                    if root.endswith('finish'):
                        q2 = 'start' if q2 in ('start', 'sample') else fail_end(cx, root, q2, bad)
                    if q2 not in LINE_STARTS:
                        if (root, q2) not in bad:
                            bad.add((root, q2))
                            cx.ob('complete-lines', root, False, 'the call ends within a line (%s)' % (q2,))
                        continue
                    f = enc.final(p, arg, e)
                    if not all(closed(x) and not contains(x, lambda y: y is arg) for x in f):
                        cx.ob('memory', root, False, 'the state of the encoder after the call is not determined: %s' % ', '.join(show(x) for x in f)[:200])
                        continue
                    c = (f, q2)
                    if c not in seen:
                        if len(seen) > 200:
                            cx.ob('memory', root, False, 'the encoder has too many states')
                            return
                        seen.add(c)
                        todo.append(c)
                cx.ob('grammar', root, True)
    cx.extra['states'] = cx.extra.get('states', []) + ['%s with output %s' % (', '.join(show(x) for x in s), q if isinstance(q, str) else str(q)) for s, q in sorted(seen, key=str)]
    cx.need('grammar', new, n, len(streams))
    cx.need('reached', new, len({q for s, q in seen}), 2)


def fail_end(cx, root, q, bad):
    if (root, q) not in bad:
        bad.add((root, q))
        cx.ob('complete-lines', root, False, 'the output ends %s' % DESC.get(q, 'within a line'))
    return 'start'


def run(cx):
    quick = cx.tier != 'thorough'
    roots = [r for r in cx.roots(ROOTS) if not (quick and re.fullmatch(QUICK_ONLY, r) and r not in ('text::root_hist3_two', 'text::g0::root_hist3'))]
    explore(cx, 'text::root_new', roots, lambda v: v is S('arg0'), 25 if quick else 40)
    explore(cx, 'text::root_bnew', cx.roots(BROOTS), lambda v: v.op == 'op' and v.a[0] == 'bnew', 7)
