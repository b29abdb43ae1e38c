"""Writes probe/src/groups.rs (derived metric groups of every small shape) and probe/groups.json (what each must collect)."""
import itertools, json, os, random
NAMES = ['alpha', 'beta_2', 'gamma', 'delta', 'eps', 'zeta']
DOCS = [('/// plain help\n        ', 'plain help'), ('/// first line\n        /// second line\n        ', 'first line second line'),
        ('#[doc = "  padded  "] ', 'padded'), ('#[doc = "two\\nlines \\\\ and \\"quotes\\""] ', 'two\nlines \\ and "quotes"'),
        ('/// snow\u2603man, 100%\n        ', 'snow\u2603man, 100%'), ('/** block */ ', 'block'),
        ('/// split\n        /// over\n        ///\n        /// four\n        ', 'split over four'),
        ('/// Ends with a full stop.\n        ', 'Ends with a full stop.'), ('/// # Heading\n        ', '# Heading'), ('/// a -- b: "c"; (d) [e] `f`, {g} <h>?!\n        ', 'a -- b: "c"; (d) [e] `f`, {g} <h>?!'),
        ('#[doc = "tab\\tand\\rreturn \\0"] ', 'tab\tand\rreturn \0'), ('#[doc = ""] ', ''), ('#[doc = "\\n\\n"] ', ''), ('/// ' + 'long ' * 60 + 'help...\n        ', 'long ' * 60 + 'help...'),
        ('/// UPPER lower  double  space\n        ', 'UPPER lower  double  space')]
FIELDS = [NAMES, ['_lead', 'CamelCase', 'trailing_', 'a', 'x9_', 'with__double'], ['total', 'requests_total', 'bucket', 'sum', 'count', 'enc'], ['help', 'value', 'q' * 70, 'name', 'v1', 'up']]
RENAMES = ['MixedCase', '__dunder', 'colon:name', ':lead', 'A9_z', 'trailing_total', 'R' * 70, 're-'.replace('-', '_')]
NSS = ['my_ns', 'Upper', '_under', 'with:colon', 'trail_', 'n' * 40, 'x9']
out = ['//! derived metric groups of every small shape (written by tools/mkgroups.py)', '#![allow(unused_doc_comments)]', 'use crate::px::*;', 'use measured::metric::*;', 'use measured::*;', 'use std::sync::Arc;', '',
       '#[derive(MetricGroup)]', 'pub struct Inner { pub one: Metric<M>, #[doc = " inner help"] #[metric(rename = "second")] pub two: Metric<M> }',
       '#[derive(MetricGroup)]', 'pub struct Deep { #[metric(namespace = "deep")] pub inner: Inner }', '']
spec, ispec = {}, {}
nd = nr = nn = nf = 0


def shape(name, ks):
    global nd, nr, nn, nf
    fs, want = [], []
    names = NAMES
    if len(ks) > 1:
        names = FIELDS[nf % len(FIELDS)]
        nf += 1
    for i, k in enumerate(ks):
        n, at, help_, nm = names[i], '', None, names[i]
        if k in 'dRO':
            d, help_ = DOCS[nd % len(DOCS)]
            nd += 1
            at += d
        if k in 'rR':
            nm = 're_%s' % names[i]
            if len(ks) > 1:
                nm = RENAMES[nr % len(RENAMES)]
                nr += 1
            at += '#[metric(rename = "%s")] ' % nm
        ns = None
        if k in 'gha':
            at += '#[metric(flatten)] '
        if k in 'nN':
            ns = 'ns%d' % i
            if len(ks) > 1:
                ns = NSS[nn % len(NSS)]
                nn += 1
            at += '#[metric(namespace = "%s")] ' % ns
        ty = {'o': 'Option<Fam>', 'O': 'Option<Fam>', 'g': 'Grp1', 'h': 'Option<Grp1>', 'a': 'Arc<Grp1>', 'n': 'Inner', 'N': 'Deep'}.get(k, 'Fam')
        fs.append('%spub %s: %s' % (at, n, ty))
        want.append({'kind': k, 'name': nm, 'help': help_, 'ns': ns})
    out.append('pub mod c_%s {\n    use super::*;\n    #[derive(MetricGroup)]\n    pub struct G { %s }' % (name, ', '.join(fs)))
    out.append('    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }\n}')
    spec[name] = want


LOW = {'R': 'q', 'O': 'p', 'N': 'v'}
enc = lambda ks: ''.join(LOW.get(k, k) for k in ks)
KS = 'fdrRoOghanN'
shape('none', '')
for n in (1, 2):
    for ks in itertools.product(KS, repeat=n):
        shape(enc(ks), ks)
for ks in ['fff', 'ddd', 'drR', 'RdO', 'ogd', 'ghn', 'nnn', 'fdn', 'dnf', 'gdg', 'hOh', 'aRd', 'NnR', 'fdrR', 'RRRR', 'dgnd', 'ffffff', 'ddRRdd', 'OhgnRf', 'drgnoO']:
    shape(enc(ks), ks)
# combinators
for name, ty in (('ref', '&\'static Grp1'), ('opt', 'Option<Grp1>'), ('arc', 'Arc<Grp1>'), ('pair', 'group::ComposedGroup<Grp1, Grp2>'),
                 ('deep', 'group::ComposedGroup<group::ComposedGroup<Grp1, Grp2>, Option<Arc<Grp1>>>'), ('optpair', 'Option<group::ComposedGroup<Grp1, Grp2>>'), ('famopt', 'group::ComposedGroup<c_o::G, c_d::G>')):
    out.append('pub mod k_%s {\n    use super::*;\n    pub fn root_collect(g: &%s, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }\n}' % (name, ty))
# constructors
IK = {'i': 'init', 'm': 'metadata', 'l': 'label set', 'b': 'both', 'z': 'default', 'g': 'group init'}


def ctor(name, ks):
    fs, args, want = [], [], []
    for i, k in enumerate(ks):
        ty, at = 'CFam', []
        if k == 'i':
            args.append(('x%d' % i, 'CFam'))
            at.append('init = x%d' % i)
            want.append(['arg', len(args) - 1])
        elif k == 'g':
            ty = 'Grp1'
            args.append(('x%d' % i, 'Grp1'))
            at += ['flatten', 'init = x%d' % i]
            want.append(['arg', len(args) - 1])
        elif k == 'm':
            args.append(('m%d' % i, 'Meta'))
            at.append('metadata = m%d' % i)
            want.append(['md', len(args) - 1])
        elif k == 'l':
            args.append(('s%d' % i, 'Set'))
            at.append('label_set = s%d' % i)
            want.append(['ls', len(args) - 1])
        elif k == 'b':
            args += [('m%d' % i, 'Meta'), ('s%d' % i, 'Set')]
            at += ['label_set = s%d' % i, 'metadata = m%d' % i] if i % 2 else ['metadata = m%d' % i, 'label_set = s%d' % i]
            want.append(['both', len(args) - 1, len(args) - 2])
        else:
            want.append(['default'])
        fs.append('%spub %s: %s' % ('#[metric(%s)] ' % ', '.join(at) if at else '', NAMES[i], ty))
    a = ', '.join('%s: %s' % x for x in args)
    out.append('pub mod i_%s {\n    use super::*;\n    #[derive(MetricGroup)]\n    #[metric(new(%s))]\n    pub struct G { %s }' % (name, a, ', '.join(fs)))
    out.append('    pub fn root_new(%s) -> G { G::new(%s) }\n}' % (a, ', '.join(x[0] for x in args)))
    ispec[name] = want


for n in (1, 2):
    for ks in itertools.product('imlbzg', repeat=n):
        ctor(''.join(ks), ks)
for ks in ['imlb', 'zbml', 'bbb', 'iiii', 'mmm', 'lll', 'zzz', 'gzmblg']:
    ctor(ks, ks)
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'probe')
open(here + '/src/groups.rs', 'w').write('\n'.join(out) + '\n')
json.dump({'collect': spec, 'new': ispec}, open(here + '/groups.json', 'w'), indent=0, sort_keys=True)
print(len(spec), 'groups', len(ispec), 'constructors')
