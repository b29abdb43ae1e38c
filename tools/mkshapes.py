"""Writes probe/src/shapes.rs: derived label groups of many shapes over opaque label sets."""
import itertools, json, os, random
KINDS = {'E': ('FEnum', ''), 'X': ('FEnum2', '#[label(fixed)] '), 'F': ('VFix', '#[label(fixed_with = LFix)] '), 'G': ('VDef', '#[label(fixed_with = LDef, default)] '),
         'D': ('VDyn', '#[label(dynamic_with = LDyn)] '), 'H': ('VDyn2', '#[label(dynamic_with = LDyn2, default)] ')}
SETS = {'F': 'LFix', 'D': 'LDyn'}
shapes = ['']
shapes += [''.join(s) for n in (1, 2) for s in itertools.product('EFGDH', repeat=n)]
shapes += [''.join(s) for s in itertools.product('EFD', repeat=3)]
shapes += ['EXF', 'XFG', 'FGH', 'HGX', 'EEEE', 'FFFF', 'DDDD', 'EFEF', 'FEDE', 'DFDF', 'FDEH', 'HEFD', 'GFXE', 'EXFGD', 'DEFHG', 'FFDEE', 'EFGDHX']
NAMES = ['alpha', 'beta_2', 'gamma', 'delta', 'eps', 'zeta']
FIELDS = [NAMES, ['_lead', 'CamelCase', 'trailing_', 'a', 'x9_', 'with__double'], ['le', 'job', 'instance', 'value', 'v', 'mul'], ['quantile', 'self_', 'q' * 70, 'name', 'set', 'up']]
RENAMES = ['MixedCase', '__dunder', 'A9_z', 'R' * 70, 'le2x', '_b1', 'UPPER']
spec, nr = {}, 0
out = ['//! derived label groups of every small shape (written by tools/mkshapes.py)', 'use crate::px::*;', 'use measured::label::*;', 'use measured::*;', '']
for sh in shapes:
    n = sh or 'none'
    fs = []
    spec[n.lower()] = labels = []
    names = NAMES
    if len(sh) > 1:
        names = FIELDS[len(spec) % len(FIELDS)]
    for i, k in enumerate(sh):
        ty, at = KINDS[k]
        # every third field is renamed
        label = names[i]
        if i % 3 == 1:
            label = RENAMES[nr % len(RENAMES)]
            nr += 1
            at = at + '#[label(rename = "%s")] ' % label
        labels.append(label)
        fs.append('%spub %s: %s' % (at, names[i], ty))
    args = [(names[i], SETS[k]) for part in ('D', 'F') for i, k in enumerate(sh) if k == part]
    uniq = '(usize%s)' % ''.join(', usize' for k in sh if k in 'DH') if any(k in 'DH' for k in sh) else 'usize'
    b = 's_%s' % n.lower()
    out.append('pub mod %s {' % b)
    out.append('    use super::*;')
    out.append('    #[derive(LabelGroup)]\n    #[label(set = Set)]\n    pub struct Group { %s }' % ', '.join(fs))
    out.append('    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }')
    out.append('    pub fn root_encode(s: &Set, g: Group) -> Option<%s> { s.encode(g) }' % uniq)
    out.append('    pub fn root_decode(s: &Set, u: &%s) -> Group { s.decode(u) }' % uniq)
    out.append('    pub fn root_encode_dense(s: &Set, u: %s) -> Option<usize> { s.encode_dense(u) }' % uniq)
    out.append('    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }')
    out.append('    pub fn root_new(%s) -> Set { Set::new(%s) }' % (', '.join('%s: %s' % a for a in args), ', '.join(a for a, _ in args)))
    if not args:
        out.append('    pub fn root_default() -> Set { Set::default() }')
    out.append('    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }')
    out.append('}')
open(os.path.join(os.path.dirname(__file__), '..', 'probe', 'src', 'shapes.rs'), 'w').write('\n'.join(out) + '\n')
json.dump(spec, open(os.path.join(os.path.dirname(__file__), '..', 'probe', 'shapes.json'), 'w'), indent=0, sort_keys=True)
print(len(shapes), 'shapes')
