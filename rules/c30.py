"""A reused encoder starts clean. Flushing or finishing is followed over every path: whatever was in
the encoder's memory, each field other than the writer is afterwards that of a new encoder, nothing is
written, the writer is flushed once; finishing a buffered encoder returns the very buffer it held and
leaves an empty one. (Writes since are appended in order: the buffer is only ever appended to.)"""
TECHNIQUE = 'value-flow dataflow over MIR paths (memory after flush/finish against memory of a new value)'
from .textlines import *
from . import proto


def run(cx):
    for new, done, writer in (('text::root_new', 'text::root_flush', lambda v: v is S('arg0')), ('text::root_bnew', 'text::root_bfinish', lambda v: v.op == 'op' and v.a[0] == 'bnew'), ('text::root_bdefault', 'text::root_bfinish', lambda v: v.op == 'op' and v.a[0] == 'bnew')):
        r, f = cx.run(new), cx.run(done)
        if r is None or f is None or not cx.ob('new', new, len(r.ret) == 1, 'a new encoder has no single state'):
            continue
        enc = Encoder(r.ret[0].val, writer)
        if not cx.ob('new', new, len(enc.writer) == 1, 'the writer of a new encoder was not found'):
            continue
        ok = [p for p in successes(f)]
        cx.need('clean', done, len(ok), 1)
        for p in f.ret:
            fin = enc.final(p, S('arg0'), {})
            for (pa, v0), v in zip(enc.fields, fin):
                cx.ob('clean', done, v is v0, 'field %s is %s afterwards, but %s in a new encoder' % (show(ptr(S('encoder'), pa)), show(v), show(v0)))
            if p not in ok:
                continue
            cx.ob('nothing-written', done, not any(written(e) is not None for e in p.every()), 'bytes are written')
            if new == 'text::root_new':
                fl = [e for e in p.every() if e.kind == 'px' and e.name == 'px_w_flush']
                cx.ob('flushed', done, len(fl) == 1, 'the writer is flushed %d times' % len(fl))
            else:
                old = at(mk('val', S('arg0')), enc.writer[0])
                cx.ob('all-bytes', done, p.val is old, 'finish returns %s' % show(p.val)[:200])
                v = p.st.mem.get(mk('deref', S('arg0')))
                w = at(v, enc.writer[0]) if v is not None else old
                cx.ob('emptied', done, w.op == 'op' and w.a[0] == 'bnew', 'the buffer left behind is %s' % show(w)[:200])
    # whatever is written meanwhile is appended to the one buffer
    for root in cx.roots(r'text::root_b(help|ty|counter|gauge|fgauge|hist)'):
        r = cx.run(root)
        if r is None:
            continue
        for p in r.ret:
            ap = {e.args[0] for e in p.every() if e.kind == 'out'}
            cx.ob('append-only', root, len(ap) == 1, 'the output goes to %d places' % len(ap))
    proto.reuse(cx)
