"""Thread-safety of the public types, as trait obligations the compiler proves for every type
parameter, and refuses for parts that are not thread-safe; and no hand-written Send/Sync anywhere."""
TECHNIQUE = 'type-level encodings (generic Send/Sync obligations), compile-fail witnesses, and the unsafe inventory of the type-checked HIR'
NOTE = 'the positive direction is proved for every value type and label set by generic witnesses; the negative one by witnesses for each part that can be unsafe to share; no unsafe impl exists, so the compiler derives all of it structurally'
from engine import build
from . import witness, c17


def run(cx):
    n = witness.run(cx, 'threads')
    n += witness.run(cx, 'misuse', r'mut-.*|assign-through-guard|guard-.*|two-mutable-accesses|moved-while-guarded|correct-use')
    cx.need('witnesses', 'programs compiled', n, 40)
    crates = {}
    for d in build.lint():
        if d['k'] == 'crate':
            crates[d['crate']] = d
        if d['k'] in c17.INFO:
            continue
        if d['k'] == 'newtype-cast' or d['k'] == 'unsafe-call':
            continue
        cx.ob('no-asserted-auto-trait', '%s|%s|%s' % (d['crate'], d['fn'], d['detail']), 'impl' not in d['k'], '%s %s' % (d['k'], d['detail']), c17.site(d))
    for c in c17.CRATES:
        cx.ob('inventory', c, c in crates, 'the crate was not seen by the inventory')
