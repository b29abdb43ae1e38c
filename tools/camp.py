#!/usr/bin/env python3
"""camp.py FILE [ID...]: runs checks on many edits, each in a private copy of /repo and /verif (mount namespaces), so that
/repo itself is not touched. FILE is Python defining E(id, props, [(file, old, new)...]); props 'all' or a comma list.
Prints, per edit, the checks that report something."""
import os, re, subprocess, sys, shutil, queue, threading
ITEMS = []
NW = int(os.environ.get('CAMP_WORKERS', '2'))
ALL = ['C%02d' % i for i in range(1, 35)]


def E(i, props, *edits):
    ITEMS.append((i, ALL if props == 'all' else props.split(','), edits))


exec(open(sys.argv[1]).read())
# with CAMP_MAP, 'all' means the checks that look at the edited files
NEAR = {
    'core/src/text.rs': 'C09 C10 C12 C13 C14 C15 C22 C26 C30 C31',
    'core/src/metric/histogram.rs': 'C08 C09 C10 C11 C14 C15 C25 C26 C29 C31 C32 C34',
    'core/src/metric.rs': 'C01 C02 C03 C04 C05 C06 C07 C11 C15 C17 C22 C23 C25 C26 C29 C33 C34',
    'core/src/metric/sparse.rs': 'C01 C02 C03 C04 C06 C07 C11 C26 C29 C33 C34',
    'core/src/metric/gauge.rs': 'C01 C02 C08 C09 C20 C27 C28 C29 C31 C34',
    'core/src/metric/counter.rs': 'C01 C02 C20 C28 C29 C31 C34',
    'core/src/metric/group.rs': 'C07 C15 C22 C23 C27 C28',
    'core/src/metric/name.rs': 'C13 C15 C16 C17 C18 C19 C22 C25',
    'core/src/label': 'C03 C05 C06 C07 C12 C16 C17 C24 C25 C29 C33 C15',
    'derive': 'C05 C06 C15 C22 C23 C24 C25 C28 C29',
    'prometheus-proto': 'C14 C15 C18 C19 C20 C21 C30 C31',
    'process': 'C15 C17 C26 C27',
    'tokio': 'C15 C26 C28',
}
if os.environ.get('CAMP_MAP'):
    for n, (i, props, edits) in enumerate(ITEMS):
        if props == ALL:
            ITEMS[n] = i, sorted(set(c for f, _, _ in edits for k, v in NEAR.items() if f.startswith(k) for c in v.split())), edits
only = sys.argv[2:]
q = queue.Queue()
for it in ITEMS:
    if not only or it[0] in only or any(it[0].startswith(o[:-1]) for o in only if o.endswith('*')):
        q.put(it)
lock = threading.Lock()
SUMMARY = []


def sync(w):
    for n in ('repo', 'verif'):
        os.makedirs('/tmp/camp/%d/%s' % (w, n), exist_ok=True)
        subprocess.run(['rsync', '-a', '--delete', '--exclude', '/target', '--exclude', '/seeded', '--exclude', '/evidence', '--exclude', '/.cache' if os.path.isdir('/tmp/camp/%d/verif/.cache' % w) and n == 'verif' else '/none', '/' + n + '/', '/tmp/camp/%d/%s/' % (w, n)], check=True)


def sh(w, cmd, t=1500):
    return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind /tmp/camp/%d/repo /repo && mount --bind /tmp/camp/%d/verif /verif && cd /verif && %s' % (w, w, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def work(w):
    sync(w)
    while True:
        try:
            i, props, edits = q.get_nowait()
        except queue.Empty:
            return
        R = '/tmp/camp/%d/repo/' % w
        saved = {}
        bad = None
        for f, o, n in edits:
            p = R + f
            s = open(p).read()
            saved.setdefault(p, s)
            if o not in s:
                bad = 'NOT FOUND in %s: %s' % (f, o[:60])
                break
            open(p, 'w').write(s.replace(o, n, 1))
        res = []
        if not bad and os.environ.get('CAMP_TEST'):
            r = subprocess.run('. /opt/vp/env.sh; cd %s; export CARGO_TARGET_DIR=/tmp/camp/%d/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4 2>&1 | grep -E "^test .*FAILED|^error" | grep -v "tokio/src/lib.rs" | head -5' % (R, w), shell=True, stdout=subprocess.PIPE, text=True, executable='/bin/bash')
            t = [l for l in r.stdout.splitlines() if 'doctest failed' not in l and '1 target failed' not in l]
            if t:
                res.append('TESTS: ' + ' '.join(t)[:300])
        if not bad:
            r = sh(w, 'timeout 600 python3 engine/build.py')
            if r.returncode:
                k = r.stdout.find('error')
                bad = 'BUILD: ' + r.stdout[k:k + 400]
        if not bad:
            r = sh(w, "printf '%%s\\n' %s | xargs -P %d -I{} sh -c 'timeout 900 python3 check.py --property {} > /tmp/camp/%d/out.{} 2>&1; echo {} $? > /tmp/camp/%d/rc.{}'" % (' '.join(props), max(1, 8 // NW), w, w), 4000)
            for p in props:
                try:
                    rc = open('/tmp/camp/%d/rc.%s' % (w, p)).read().split()[1]
                    out = open('/tmp/camp/%d/out.%s' % (w, p)).read().splitlines()
                except Exception as e:
                    rc, out = '?', [str(e)]
                if rc != '0':
                    ls = [l for l in out if l.startswith('  C')] or out
                    res.append('%s(rc%s): %s' % (p, rc, ls[0].strip()[:330] if ls else ''))
        for p, s in saved.items():
            open(p, 'w').write(s)
        with lock:
            print('##', i, '->', bad or ('quiet' if not res else ''), flush=True)
            for x in res:
                print('     ', x, flush=True)
            SUMMARY.append((i, bad or ','.join(x[:3] for x in res) or 'quiet'))


B = int(os.environ.get('CAMP_BASE', '0'))
ts = [threading.Thread(target=work, args=(B + w,)) for w in range(NW)]
[t.start() for t in ts]
[t.join() for t in ts]
print('==', ' '.join('%s:%s' % (a, b[:40]) for a, b in sorted(SUMMARY)))
