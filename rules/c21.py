"""Every message carries one family, its own. From the state of a new encoder, every call that is legal
(a family's help, its type, its samples; the next family; a flush; a failing write at any point) is
followed to a fixpoint over the encoder's own memory, the samples of a family being one opaque piece.
What each message says is compared with what had been announced when it was written."""
TECHNIQUE = 'typestate analysis: fixpoint over the encoder memory under every legal call sequence, with a wire-format parse of every message'
from .proto import *


def run(cx):
    for m in machines(cx):
        inst = 'sequences' + (' of two-part names' if m.two else '')
        for rule, i, msg, site in m.errors:
            cx.ob(rule, i, False, msg, site)
        if not m.ok:
            continue
        n = 0
        for s in m.steps:
            fam = s.fam
            cont = s.what[0] == 'sample' or s.what[0] == 'type' and fam is not None and fam.typ is None and (s.what[1] == fam.name or frozenset((s.what[1], fam.name)) in s.eqs)
            what = 'when %s follows %s' % (' '.join(x for x in s.what if isinstance(x, str)), 'nothing' if fam is None else 'help' if fam.typ is None else 'the type of a family' if not fam.n else 'the samples of a family')
            if cont:
                cx.ob('pending', s.root, not s.msgs, 'a message is written in the middle of its family, ' + what, s.msgs[0][1] if s.msgs else None)
                continue
            if fam is None or fam.typ is None:
                cx.ob('nothing', s.root, not s.msgs, 'a message is written %s' % what, s.msgs[0][1] if s.msgs else None)
                continue
            if not fam.n:
                # a family without samples may be left out
                if not cx.ob('once', s.root, len(s.msgs) <= 1, '%d messages are written %s' % (len(s.msgs), what), s.msgs[-1][1] if s.msgs else None):
                    continue
            elif not cx.ob('once', s.root, len(s.msgs) == 1, '%d messages are written for one family, %s' % (len(s.msgs), what), s.msgs[-1][1] if s.msgs else None):
                continue
            for fs, site, e in s.msgs:
                n += 1
                try:
                    own_message(cx, s, fam, fs, site)
                except Bad as b:
                    cx.ob('own', s.root, False, str(b), b.site)
        cx.need('own', inst, n, 20)
        cx.need('states', inst, len(m.seen), 15)
    cx.extra['states'] = [len(m.seen) for m in machines(cx) if m.ok]
    cx.extra['steps'] = [len(m.steps) for m in machines(cx) if m.ok]


def own_message(cx, s, fam, fs, site):
    d = only(fs, {1: 2, 2: 2, 3: 0, 4: 2}, 'a family')
    nm = tuple(text(one(d, 1, 'a family', site)))
    cx.ob('own', s.root, nm in fam.names(), 'the message of the family %s is named %s' % (shown(fam.name), shown(nm)), d[1][0].site)
    hs = [tuple(text(f)) for f in d.get(2, ())]
    want = [] if fam.help is None else [(fam.help,)]
    cx.ob('own', s.root, hs == want, 'the message of a family %s has %s' % ('without help' if not want else 'with help %s' % show(fam.help), 'help %s' % ', '.join(shown(h) for h in hs) if hs else 'none'), site)
    t = one(d, 3, 'a family', site)
    cx.ob('own', s.root, t.val is C(ENUM[fam.typ]), 'the message of a %s family has type %s' % (fam.typ, show(t.val)), t.site)
    ms = d.get(4, ())
    if fam.n:
        cx.ob('own', s.root, len(ms) == 1 and ms[0].val is SMP, 'the message holds %s instead of the samples of its family' % ('no samples' if not ms else 'other samples'), site)
    else:
        cx.ob('own', s.root, not ms, 'the message holds samples of another family', site)
