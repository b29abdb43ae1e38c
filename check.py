#!/usr/bin/env python3
"""check.py --property ID : decides one property on /repo's current tree by static analysis."""
import argparse, importlib, json, os, sys, time, traceback
sys.setrecursionlimit(100000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import build
from engine.lib import Ctx, rel

VERIF = build.VERIF


def known_findings(pid):
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                key, _, desc = l.split(' key=', 1)[1].partition(' :: ')
                out[key] = desc
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    mod = importlib.import_module('rules.' + pid.lower())
    cx = Ctx(pid, a.tier)
    try:
        mod.run(cx)
    except build.BuildError as e:
        cx.ob('anchor', 'build', False, str(e))
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        cx.ob('analysable', pid, False, 'inconclusive: the code no longer has a shape the rule can judge (%s: %s at %s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    if not cx.obs:
        cx.ob('floor', pid, False, 'the rule found nothing to check')
    known = known_findings(pid)
    bad, kf = [], []
    for o in cx.obs:
        if not o[2]:
            key = '%s|%s' % (o[0], o[1])
            (kf if key in known else bad).append(o)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    seen = {}
    for rule, inst, ok, detail, site in cx.obs:
        seen.setdefault(rule, []).append((inst, ok, detail))
    try:
        repo_fns = cx.repo_fns() if cx._P is not None else []
    except Exception:
        repo_fns = []
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'obligations': len(cx.obs), 'discharged': sum(1 for o in cx.obs if o[2]),
            'rules': {r: {'instances': len(v), 'failed': sum(1 for x in v if not x[1]), 'examples': ['%s: %s' % (x[0], x[2][:240]) for x in v[:4]]} for r, v in seen.items()},
            'analysed': {'entry_points': len(cx.runs), 'paths': cx.paths, 'loops_summarised': cx.loops, 'functions_total': len(cx.visited), 'library_functions': len(repo_fns), 'library_function_names': repo_fns[:200]},
            **cx.extra,
        },
        'assumptions': getattr(mod, 'ASSUMES', []) + ['release semantics (no debug assertions); std, hashbrown, parking_lot and the other dependencies behave as modelled in engine/prims.py'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(bad),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, known['%s|%s' % (o[0], o[1])]))
    print('%s: %d obligations, %d discharged, %d entry points, %d paths, %.1fs' % (pid, len(cx.obs), ev['coverage']['discharged'], len(cx.runs), cx.paths, time.time() - t0))
    if bad:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for rule, inst, ok, detail, site in bad:
                f.write('property=%s rule=%s instance=%s at %s\n  %s\n' % (pid, rule, inst, rel(site), detail))
        for rule, inst, ok, detail, site in bad[:8]:
            print('  %s: rule %s, instance %s at %s: %s' % (pid, rule, inst, rel(site), detail[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
