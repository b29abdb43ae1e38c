"""Writes probe/src/enums.rs: derived label enums, and probe/enums.json: what each variant must be reported as
(written by hand below, not computed by the library's case conversion)."""
import json, os
STYLES = ['UpperCamelCase', 'lowerCamelCase', 'snake_case', 'kebab-case', 'SHOUTY_SNAKE_CASE', 'SHOUTY-KEBAB-CASE', 'Title Case', 'Train-Case']
# identifier -> its name in each style, in the order above
NAMES = {
    'Alpha': ('Alpha', 'alpha', 'alpha', 'alpha', 'ALPHA', 'ALPHA', 'Alpha', 'Alpha'),
    'BetaGamma': ('BetaGamma', 'betaGamma', 'beta_gamma', 'beta-gamma', 'BETA_GAMMA', 'BETA-GAMMA', 'Beta Gamma', 'Beta-Gamma'),
    'delta_eps': ('DeltaEps', 'deltaEps', 'delta_eps', 'delta-eps', 'DELTA_EPS', 'DELTA-EPS', 'Delta Eps', 'Delta-Eps'),
    'HTTPServer': ('HttpServer', 'httpServer', 'http_server', 'http-server', 'HTTP_SERVER', 'HTTP-SERVER', 'Http Server', 'Http-Server'),
    'X': ('X', 'x', 'x', 'x', 'X', 'X', 'X', 'X'),
    'ReadWriteLock': ('ReadWriteLock', 'readWriteLock', 'read_write_lock', 'read-write-lock', 'READ_WRITE_LOCK', 'READ-WRITE-LOCK', 'Read Write Lock', 'Read-Write-Lock'),
    'r#type': ('Type', 'type', 'type', 'type', 'TYPE', 'TYPE', 'Type', 'Type'),
}
IDS = list(NAMES)
out = ['//! derived label enums (written by tools/mkenums.py)', '#![allow(non_camel_case_types)]', 'use crate::px::*;', 'use measured::label::*;', 'use measured::FixedCardinalityLabel;', '']
spec = {}


def enum(name, variants, style=None, singleton=None):
    """variants: (identifier, rename or None, explicit integer or None)"""
    at = []
    if style:
        at.append('rename_all = "%s"' % style)
    if singleton:
        at.append('singleton = "%s"' % singleton)
    vs, want, discr = [], [], []
    si = STYLES.index(style or 'snake_case')
    for v, ren, n in variants:
        s = '#[label(rename = %s)] ' % json.dumps(ren, ensure_ascii=False) if ren is not None else ''
        vs.append('%s%s%s' % (s, v, '' if n is None else ' = %s' % n))
        discr.append(int(str(n).replace('_', ''), 0) if n is not None else discr[-1] + 1 if discr else 0)
        want.append(int(str(n).replace('_', ''), 0) if n is not None else ren if ren is not None else NAMES[v][si])
    out.append('pub mod %s {\n    use super::*;' % name)
    out.append('    #[derive(FixedCardinalityLabel, Clone, Copy)]')
    if at:
        out.append('    #[label(%s)]' % ', '.join(at))
    out.append('    pub enum E { %s }' % ', '.join(vs))
    out.append('    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }')
    out.append('    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }')
    out.append('    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }')
    out.append('    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }')
    if singleton:
        out.append('    pub fn root_group(x: &E, e: &mut Enc) { LabelGroup::visit_values(x, &mut GV(e)) }')
    out.append('}')
    spec[name] = {'variants': want, 'discriminants': discr, 'singleton': singleton}


for n in range(1, 7):
    enum('n%d' % n, [(v, None, None) for v in IDS[:n]])
enum('all', [(v, None, None) for v in IDS])
for i, s in enumerate(STYLES):
    enum('style%d' % i, [(v, None, None) for v in IDS], s)
    enum('style%d_rot' % i, [(v, 'kept As-Is' if k == 1 else None, 7 if k == 2 else None) for k, v in enumerate(IDS[3:] + IDS[:3])], s)
enum('rename', [('Alpha', 'a b', None), ('X', None, None), ('BetaGamma', '', None)])
enum('rename_all', [(v, 'r%d' % i, None) for i, v in enumerate(IDS)])
enum('rename_odd', [('Alpha', 'snow\u2603man', None), ('X', 'q"uote\\', None), ('BetaGamma', 'Alpha', None)])
enum('rename_space', [('Alpha', ' a', None), ('X', 'a ', None), ('BetaGamma', 'a', None), ('delta_eps', '\ta\n', None), ('HTTPServer', ' ', None)])
enum('rename_case', [('Alpha', 'ALPHA', None), ('X', 'r#x', None), ('BetaGamma', 'betaGamma', None), ('delta_eps', '0', None), ('HTTPServer', '-1', None)], 'kebab-case')
enum('codes', [('Alpha', None, 200), ('X', None, 404), ('BetaGamma', None, 500)])
enum('codes_down', [('Alpha', None, 500), ('X', None, 404), ('BetaGamma', None, 0)])
enum('codes_mixed', [('Alpha', None, 5), ('X', None, None), ('BetaGamma', 'bg', None), ('HTTPServer', 'ignored', 3)])
enum('codes_swapped', [('Alpha', None, 1), ('X', None, 0)])
enum('codes_hex', [('Alpha', None, '0xff'), ('X', None, '1_000_000')])
enum('codes_last', [('Alpha', None, None), ('X', None, None), ('BetaGamma', None, 100)])
enum('codes_big', [('Alpha', None, 2147483648), ('X', None, 4294967296), ('BetaGamma', None, 9223372036854775807), ('delta_eps', None, 65536), ('HTTPServer', None, 255), ('ReadWriteLock', None, 256)])
enum('codes_single', [('Alpha', None, 42)])
enum('single', [('Alpha', None, None), ('BetaGamma', None, None)], None, 'kind')
enum('single_styled', [('Alpha', None, None), ('BetaGamma', None, None), ('X', 'other', None)], 'SHOUTY-KEBAB-CASE', 'the_kind')
enum('single_code', [('Alpha', None, 7), ('X', None, None)], None, 'code')
V40 = ['V%s' % (chr(65 + i // 26) + chr(65 + i % 26)) for i in range(40)]
for v in V40:
    NAMES[v] = tuple(None for _ in STYLES)
enum('wide', [(v, 'w%d' % i, None) for i, v in enumerate(V40)])
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'probe')
open(here + '/src/enums.rs', 'w').write('\n'.join(out) + '\n')
json.dump(spec, open(here + '/enums.json', 'w'), indent=0, sort_keys=True)
print(len(spec), 'enums')
