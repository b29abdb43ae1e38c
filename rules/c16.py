"""The language of strings each name constructor accepts, computed from the paths that accept (facts on
the length, on the first byte, and on the byte at each position a scan covers), is compared with the
documented character classes, for all 256 byte values and all lengths. The value that comes out must
be the very string that was validated, and no other safe way to make a name may compile."""
TECHNIQUE = 'path-sensitive dataflow over MIR (accepted language of the scans over all byte values) + compile-fail witnesses'
from engine.lib import *
from .iters import *
from engine import build
from . import witness

LET = set(range(65, 91)) | set(range(97, 123))
DIG = set(range(48, 58))
METRIC = (LET | {95, 58}, LET | DIG | {95, 58})
LABEL = (LET | {95}, LET | DIG | {95})
MANY = 1000


def relevant(t):
    return not (t.op == 'op' and t.a[0] in ('ult', 'ule', 'slt') and t.a[1] in (8, 16, 32) and not contains(t, lambda x: x.op == 'sel'))


def holds(x, v):
    return bool(x.a[0]) == bool(v) if v in (0, 1) else x.a[0] == v


def fold(facts, m):
    """evaluate facts under the assignment: False if refuted, None if some remain open"""
    open_ = False
    for t, v in facts.items():
        if not relevant(t):
            continue
        x = subst(t, m)
        if x.op == 'c':
            if not holds(x, v):
                return False
        elif contains(x, lambda y: y.op == 'sel'):
            open_ = True
    return None if open_ else True


BYTES = frozenset(range(0x180)) | {0x660, 0xff10, 0x1d7ce, 0x10ffff}
_memo = {}


def bytes_of(facts, m, b):
    """the values of byte b for which the facts may hold under the assignment"""
    out = BYTES
    for t, v in facts.items():
        if not relevant(t):
            continue
        x = subst(t, m)
        if x.op == 'c':
            if not holds(x, v):
                return frozenset()
            continue
        if not contains(x, lambda y: y is b):
            continue
        r = _memo.get((x, v, b))
        if r is None:
            r = set()
            for n in BYTES:
                y = subst(x, {b: C(n)})
                if y.op != 'c' or holds(y, v):
                    r.add(n)
            r = _memo[(x, v, b)] = frozenset(r)
        out &= r
    return out


def accepted(cx, root, p, s):
    """(lengths admitted out of {0,1,MANY}, first-byte set, other-byte set) of an accepting path, or None"""
    I, n, val = p.run.I, mk('meta', s), mk('val', s)
    if any(contains(t, lambda x: x.op == 'chars') for l in I.loops.values() for f, _, _ in l.conts for t in f):
        # characters, each as one position: in a string of ASCII characters those are the bytes
        n2 = ops.op('nchars', s)
        ren = lambda f: {subst(t, {n2: n, mk('chars', s): val}): v for t, v in f.items()}
    else:
        ren = lambda f: f
    facts = ren(p.facts)
    at = lambda i: sel(val, i)
    loops = [e.x for e in p.trace if e.kind == 'loop']
    out = []
    for ln in (0, 1, MANY):
        fold0 = fold({t: v for t, v in facts.items() if not contains(t, lambda x: x.op in ('sel', 'k'))}, {n: C(ln)})
        if fold0 is False:
            continue
        if ln == 0:
            # positions cannot matter
            kz = {I.loops[l].k: C(0) for l in loops}
            if fold(facts, {n: C(0), **kz}) is not False:
                out.append((0, set(), set()))
            continue
        first = bytes_of({t: v for t, v in facts.items() if not contains(t, lambda x: x.op == 'k')}, {n: C(ln)}, at(C(0)))
        rest = BYTES
        for l in loops:
            k = I.loops[l].k
            c0 = None
            for c in (0, 1):
                it = iterations(I, facts, [], l, sub(64, n, C(c)))
                if it is not None:
                    c0 = c
                    break
            if c0 is None:
                es = exits_at(I, facts, l)
                if not es:
                    return None, 'a scan is left before the end of the string on an accepting path'
                return None, 'a scan covers %s positions' % show(es[0])
            conts = [(ren(f), t) for f, t in it[0]]
            idx = {x.a[1] for f, _ in conts for t in f for x in subterms(t) if x.op == 'sel' and x.a[0] is val and contains(x.a[1], lambda y: y is k)}
            if not idx:
                continue
            if len(idx) > 1:
                return None, 'a scan looks at more than one position at a time'
            idx = idx.pop()
            if not (idx is k or idx is add(64, k, C(c0)) or bijective_index(idx, k, n)):
                return None, 'a scan looks at position %s in iteration k' % show(idx)

            def ok(pos):
                kk = pos if idx is k else pos - 1 if idx is add(64, k, C(1)) and c0 else ln - 1 - pos
                return frozenset().union(*[bytes_of(f, {n: C(ln), k: C(kk)}, at(C(pos))) for f, _ in conts])
            if idx is k or bijective_index(idx, k, n) or c0 == 0:
                first &= ok(0)
            cover = {}
            for pos in ([] if ln == 1 else [1, 2, 3, 7, 64, 255, 256, ln - 2, ln - 1]):
                cover[pos] = ok(pos)
            if cover:
                if len({x for x in cover.values()}) > 1:
                    return None, 'positions past the first are not treated alike'
                rest &= next(iter(cover.values()))
        out.append((ln, first, rest if ln > 1 else set()))
    return out, ''


def name(b):
    return repr(chr(b))


def language(cx, rule, root, arg, lang, is_ok, value):
    F0, R0 = lang
    r = cx.run(root, split=True)
    if r is None:
        return
    s = S(arg)
    acc = [p for p in r.ret if is_ok(p)]
    cx.need(rule, root + '|accepting paths', len(acc), 1)
    got = {1: [], MANY: []}
    ok = True
    for p in acc:
        ok &= cx.ob('value-is-the-validated-string', root, value(p.val), 'the name is %s, not the string that was checked' % show(p.val)[:100], p.site)
        sets, why = accepted(cx, root, p, s)
        if sets is None:
            cx.ob(rule, root, False, why, p.site)
            return
        for ln, F, R in sets:
            if ln == 0:
                cx.ob(rule, root, False, 'accepts the empty string', p.site)
                continue
            bad = sorted(F - F0)
            cx.ob(rule, root + '|first', not bad, 'accepts %s as the first character' % ', '.join(map(name, bad[:5])), p.site)
            if F and ln > 1:
                bad = sorted(R - R0)
                cx.ob(rule, root + '|rest', not bad, 'accepts %s after the first character' % ', '.join(map(name, bad[:5])), p.site)
            got[ln].append((F, R))
    for ln in (1, MANY):
        miss = sorted(b for b in F0 if not any(b in F and (ln == 1 or R0 <= R) for F, R in got[ln]))
        why = ''
        if miss:
            R = [R for F, R in got[ln] if miss[0] in F]
            why = 'rejects valid names starting with %s' % ', '.join(map(name, miss[:5])) + (' when followed by %s' % ', '.join(map(name, sorted(R0 - R[0])[:5])) if R else '')
        cx.ob(rule, root + '|complete', not miss, why)
    if is_ok is ok_result:
        for p in r.pan:
            bad = fold(p.facts, {mk('meta', s): C(0)}) is True
            cx.ob('no-panic', root, not bad, 'panics on the empty string instead of returning an error', p.site)


def ok_result(p):
    return p.val.op == 'agg' and p.val.a[0] == 0


def always(p):
    return True


def run(cx):
    a = lambda i: 'arg%d' % i
    language(cx, 'metric-name-language', 'names::root_m_from', a(0), METRIC, always, lambda v: v is S(a(0)))
    language(cx, 'metric-name-language', 'names::root_m_try', a(0), METRIC, ok_result, lambda v: v is mk('agg', 0, S(a(0))))
    language(cx, 'metric-name-language', 'names::root_m_innsp', a(1), METRIC, always, lambda v: v.op == 'agg' and v.a[1:] == (S(a(1)), S(a(0))))
    language(cx, 'metric-name-language', 'names::root_m_nsnew', a(1), METRIC, always, lambda v: v.op == 'agg' and v.a[1:] == (S(a(1)), S(a(0))))
    language(cx, 'label-name-language', 'names::root_l_from', a(0), LABEL, always, lambda v: v is S(a(0)))
    # what comes out of a name is the string that went in
    r = cx.run('names::root_l_str')
    if r:
        for p in r.ret:
            cx.ob('name-text', 'names::root_l_str', p.val is S(a(0)), show(p.val)[:100], p.site)
    witness.run(cx, 'names')
    makers(cx)


KNOWN = {'label::name::LabelName::from_str', 'metric::name::MetricName::from_str', 'metric::name::MetricName::try_from_str',
         'metric::name::MetricName::in_namespace', 'metric::name::WithNamespace::<T>::new'}


def makers(cx):
    """every public function that turns text into a name is one whose accepted language is decided above"""
    n = 0
    for d in build.lint():
        if d['crate'] != 'measured' or d['k'] != 'public-fn':
            continue
        ins, _, out = d['detail'].rpartition(' -> ')
        out = re.sub(r'<.* as .*>::\w+', '', out)
        if not re.search(r'\b(MetricName|LabelName|WithNamespace)\b', out) or not re.search(r'\b(str|String|u8|char|Bytes|OsStr|CStr)\b', ins):
            continue
        n += 1
        f, _, l = d['at'].rpartition(':')
        cx.ob('public-constructor', d['fn'], d['fn'] in KNOWN, 'an unexamined public way to make a name out of text: ' + d['detail'], (f, int(l or 0), d['fn']))
    cx.need('public-constructor', 'constructors', n, 5)
