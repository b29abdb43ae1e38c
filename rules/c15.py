"""Encoder write errors are never swallowed. On every path of every encoder entry point, the result of
each fallible call (of the writer, or of the opaque encoder, group or metric called back into) is
inspected before anything else is written; after a failure nothing further is called, and that
failure is what the caller gets. A loop may remember its first error only in a variable that is shown
to stay that error and to stop further writes."""
TECHNIQUE = 'value-flow / effect analysis over MIR paths: error-result discipline of every fallible call'
from .textlines import *
from .errors import check_path, fallible

TEXT = r'text::(root_(flush|help|help_two|help_ref|ty|ty_two|ty_counter|ty_gauge|ty_fgauge|ty_hist|counter_two|counter_ref|counter_ns|hist3_two|fam_counter|met_counter|met_hist)|(g0|nl|g1|g1i|g2)::root_(counter|gauge|fgauge|hist[013])|(g1f|g3)::root_(counter|hist0)|gn::root_(counter|gauge|fgauge))'
SLOW = r'text::(.*hist3|g2::root_hist1|g3::.*|gn::root_(gauge|fgauge)|nl::.*|g1i::root_hist1)'
OTHER = r'(metrics|proto|coll)::root_.*|groups::[ck]_\w+::root_collect'


def run(cx):
    n = roots = 0
    for root in cx.roots(TEXT) + cx.roots(OTHER):
        if cx.tier != 'thorough' and re.fullmatch(SLOW, root):
            continue
        if not root.startswith('text::') and not returns_result(cx, root):
            continue
        r = cx.run(root)
        if r is None:
            continue
        k = sum(check_path(cx, root, p) for p in r.ret)
        roots += k > 0
        n += k
    cx.need('error-discipline', 'calls', n, 2000)
    cx.need('error-discipline', 'entry points', roots, 25)


def returns_result(cx, root):
    """does the root call something fallible?"""
    P = cx.P
    d = P.tys[P.core(P.fns[P.roots[root]]['locals'][0])]
    return d.get('p') == 'std::result::Result'
