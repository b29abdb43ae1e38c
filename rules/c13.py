"""HELP and TYPE lines. Every path of writing help or a type writes at most one separator and then
exactly one line: the keyword, the caller's name, one space, and the help text escaped for its line
(the escaping loop is recognised by what it writes) or the keyword of the metric's own kind."""
TECHNIQUE = 'value-flow dataflow over MIR paths with inductive loop summaries; parsing of the abstract output'
from .textlines import *

KW = {'root_ty_counter': b'counter', 'root_ty_gauge': b'gauge', 'root_ty_fgauge': b'gauge', 'root_ty_hist': b'histogram',
      'root_tyv_counter': b'counter', 'root_tyv_histogram': b'histogram', 'root_tyv_gauge': b'gauge', 'root_tyv_summary': b'summary', 'root_tyv_untyped': b'untyped',
      'root_bty': b'counter', 'root_bty_hist': b'histogram', 'root_bty_gauge': b'gauge', 'root_bty_fgauge': b'gauge',
      'root_met_counter': b'counter', 'root_met_hist': b'histogram'}


def run(cx):
    nh = nt = 0
    for root in cx.roots(r'text::root_(help|help_two|help_ref|bhelp)'):
        for p, ls in parsed(cx, 'help-line', root) or []:
            nh += 1
            body = [l for l in ls if l.k != 'blank']
            if not cx.ob('help-line', root, len(body) == 1 and ls[-1].k == 'help' and len(ls) <= 2, 'the lines written are: %s' % ', '.join(l.k for l in ls)):
                continue
            l = ls[-1]
            cx.ob('help-name', root, tok(l.name) == names(root), 'the help line is for %s' % shown(tok(l.name)), l.site)
            t = l.text
            empty = p.facts.get(mk('meta', A[2])) == 0
            ok = not t and empty or len(t) == 1 and not isinstance(t[0], bytes) and t[0].k == 'str' and t[0].v is A[2] and 'help' in t[0].esc
            cx.ob('help-text', root, ok, 'the help text is written as %s' % shown(tok(t)), l.site)
    cx.need('help-line', 'text', nh, 7)
    for root in cx.roots(r'text::root_(ty(_two)?|ty_\w+|tyv_\w+|bty(_\w+)?|met_counter|met_hist)'):
        want = KW.get(root.split('::')[-1])
        for p, ls in parsed(cx, 'type-line', root) or []:
            nt += 1
            ty = [l for l in ls if l.k == 'type']
            met = '_met_' in root
            if not cx.ob('type-line', root, len(ty) == 1 and (met or ls[-1] is ty[0] and len(ls) <= 2), 'the lines written are: %s' % ', '.join(l.k for l in ls)):
                continue
            cx.ob('type-name', root, tok(ty[0].name) == names(root), 'the type line is for %s' % shown(tok(ty[0].name)), ty[0].site)
            if want:
                cx.ob('type-keyword', root, ty[0].typ == want, 'a %s is announced as %s' % (want.decode(), ty[0].typ.decode()), ty[0].site)
    cx.need('type-line', 'text', nt, 26)
