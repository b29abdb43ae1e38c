"""Lock-state walk over every path (normal and error returns, loop iterations included) of every entry
point of the library: no lock is acquired while it is already held by the same operation; a lock is
acquired while another is held only if it is stored inside the data the held lock guards, so the
order of acquisition is the containment order, which has no cycle; each loop iteration is balanced;
an operation that does not return a guard holds nothing when it returns, and one that does holds
exactly the one lock its guard owns, shared. Queries (scrape, cardinality, label and metadata look-ups)
take the locks of a family shared, so a guard the same thread holds does not block them."""
TECHNIQUE = 'lock-order and typestate analysis over all MIR paths'
from .protocol import *

GUARDS = r'metrics::root_(fam_(get|access)|met_get)'
QUERIES = re.compile(r'metrics::root_(fam_(with_labels|try_with_labels|cardinality|metadata|label_set|collect)|optfam_collect)')
RULES = ('no-reacquire', 'nesting', 'release-held', 'balanced-loop')


def entry_points(cx):
    return [r for r in cx.roots(r'metrics::.*|text::(root_(fam_counter|met_counter)|g1::root_(hist3|counter|fgauge))') if not re.search(r'_fin_|root_guard_drop', r)]


def run(cx):
    locks = nested = held_ret = 0
    for root in entry_points(cx):
        r = cx.run(root)
        if r is None:
            continue
        guard = re.fullmatch(GUARDS, root) is not None
        for p in r.ret:
            w = Walk(cx, r, root, lambda rule, ok, d, s: cx.ob(rule, root, ok, d, s) if rule in RULES else None)
            held = w.path(p)
            locks += w.nlocks
            if QUERIES.fullmatch(root):
                for e in p.every(('lock',)):
                    if e.name.startswith('lock_'):
                        cx.ob('query-shares', root, e.name == 'lock_shared', 'a query acquires %s with %s' % (show(e.args[0])[:120], e.name), e.site)
            if not guard:
                cx.ob('nothing-held', root, not held, 'returns holding %s' % names(held), next(iter(held.values())).site if held else None)
            elif held:
                held_ret += 1
                own = returned_guards(p.val)
                ok = len(held) == 1 and all(l in own and h.mode == 'shared' for l, h in held.items())
                cx.ob('guard-owns-one-shared-lock', root, ok, 'returns a guard while holding %s' % names(held), next(iter(held.values())).site)
    cx.need('locks', 'acquisitions', locks, 300)
    cx.need('guards', 'paths', held_ret, 6)
    # a guard passed in is released exactly once when dropped
    r = cx.run('metrics::root_guard_drop')
    if r:
        rel = [[e for e in p.every(('lock',))] for p in r.ret]
        cx.ob('guard-drop-releases', r.name, all(len(x) <= 1 and all(e.name == 'unlock_shared' for e in x) for x in rel) and any(rel), str(rel)[:200])
    cx.extra['lock_acquisitions'] = locks
