"""Inventory of every unsafe operation, unsafe item and unsafe token of the library crates, from the
type-checked program. Allowed are only: reborrowing a reference through a pointer cast to a
repr(transparent) single-field struct over the same type, in a function whose result lives no longer
than its arguments; and calls of libc::getpid, libc::getpagesize and libc::sysconf (which reads no memory of the caller, whatever its argument)."""
TECHNIQUE = 'effect inventory over the type-checked HIR (custom rustc driver) + compile-fail witnesses'
NOTE = 'decided from the type-checked HIR of all five library crates by a rustc driver (every unsafe operation, unsafe item and unsafe token enumerated and matched against the sound forms), and by programs the compiler must reject'
import os, re
from engine.lib import *
from engine import build
from . import witness

CRATES = {'measured': 'core', 'measured_derive': 'derive', 'measured_process': 'process', 'measured_tokio': 'tokio', 'measured_prometheus_protobuf': 'prometheus-proto'}
SYSCALL = re.compile(r'^libc::(unix::|linux_like::|[a-z_]+::)*(getpid|getpagesize)\(\)$|^libc::(unix::|linux_like::|[a-z_]+::)*sysconf\([^()]*\)$')
INFO = {'crate', 'type', 'public-fn', 'unsafe-block'}


def site(d):
    f, _, l = d['at'].rpartition(':')
    return (f, int(l or 0), d['crate'] + '::' + d['fn'])


def tokens(src):
    """identifier tokens of Rust source, without comments and literals"""
    rx = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.[^\']*|[^\'\\])\'|[A-Za-z_]\w*', re.S)
    for m in rx.finditer(src):
        t = m.group(0)
        if re.match(r'[A-Za-z_]\w*$', t):
            yield t, src.count('\n', 0, m.start()) + 1


def run(cx):
    L = build.lint()
    seen = {d['crate'] for d in L if d['k'] == 'crate'}
    bodies = sum(int(d['detail']) for d in L if d['k'] == 'crate')
    for c in CRATES:
        cx.ob('inventory', c, c in seen, 'the crate was not seen by the inventory')
    cx.extra['bodies_examined'] = bodies
    cx.need('inventory', 'function bodies', bodies, 300)
    casts = calls = 0
    for d in L:
        k = d['k']
        if k in INFO:
            continue
        inst = '%s|%s|%s' % (d['crate'], d['fn'], d['detail'])
        if k == 'newtype-cast':
            casts += 1
            cx.ob('layout-justified-cast', inst, True, site=site(d))
        elif k == 'unsafe-call' and SYSCALL.match(d['detail']):
            calls += 1
            cx.ob('plain-system-call', inst, True, site=site(d))
        else:
            cx.ob('no-other-unsafe', inst, False, '%s %s' % (k, d['detail']), site(d))
    # unsafe code that the analysed configuration does not contain (macros, other cfgs, generated code)
    found = {}
    for d in L:
        if d['k'] == 'unsafe-block':
            f = d['at'].rpartition(':')[0]
            found[f] = found.get(f, 0) + 1
    for c, sub in CRATES.items():
        for dp, ds, fs in os.walk(os.path.join(build.REPO, sub, 'src')):
            for f in sorted(fs):
                if not f.endswith('.rs'):
                    continue
                p = os.path.join(dp, f)
                at = [l for t, l in tokens(open(p).read()) if t == 'unsafe']
                n = found.get(p, 0)
                cx.ob('every-unsafe-analysed', os.path.relpath(p, build.REPO), len(at) <= n, '%d use(s) of `unsafe`, %d of them in analysed code' % (len(at), n), (p, at[0] if at else 0, 'unsafe'))
    cx.need('layout-justified-cast', 'casts', casts, 1)
    witness.run(cx, 'unsafety')
