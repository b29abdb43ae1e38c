"""Compile-fail witnesses. Each section of witness/<group>.rs is compiled on its own against the
library crates of the current tree: a section marked with error codes must be rejected with one of
those codes (and no other), its correct twin (`ok`) must be accepted."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess
from engine import build

DIR = os.path.join(build.VERIF, 'witness')


def externs(env, target):
    cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--message-format=json']
    r = subprocess.run(cmd, cwd=DIR, env={**env, 'CARGO_TARGET_DIR': target, 'RUSTFLAGS': '--cfg=tokio_unstable'}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise build.BuildError('the library crates do not compile:\n' + '\n'.join(r.stderr.splitlines()[-30:]))
    out, dirs = {}, set()
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('reason') != 'compiler-artifact':
            continue
        for f in d['filenames']:
            dirs.add(os.path.dirname(f))
            if f.endswith(('.rmeta', '.so')) and d['target']['kind'][0] in ('lib', 'proc-macro'):
                out[d['target']['name'].replace('-', '_')] = f
    want = ('measured', 'measured_process', 'measured_tokio', 'measured_prometheus_protobuf', 'indexmap', 'lasso', 'phf', 'tokio', 'bytes')
    return {k: out[k] for k in want}, sorted(dirs)


def sections(group):
    text = open(os.path.join(DIR, group + '.rs')).read()
    parts = re.split(r'(?m)^//# (\S+): (.*)$', text)
    return parts[0], [(parts[i], parts[i + 1].strip(), parts[i + 2]) for i in range(1, len(parts), 3)]


def results(group):
    """name -> (expected, ok, codes, first message)"""
    os.makedirs(build.CACHE, exist_ok=True)
    src = open(os.path.join(DIR, group + '.rs'), 'rb').read() + open(__file__, 'rb').read()
    key = hashlib.sha256(build.tree_hash().encode() + src).hexdigest()[:24]
    cache = os.path.join(build.CACHE, 'witness-%s-%s.json' % (group, key))
    with open(os.path.join(build.CACHE, 'wlock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(cache):
            return json.load(open(cache))
        env = build.nightly_env()
        target = os.path.join(build.CACHE, 'wtarget')
        shutil.rmtree(os.path.join(build.CACHE, 'wtarget'), ignore_errors=True)
        ext, dirs = externs(env, target)
        prelude, secs = sections(group)
        work = os.path.join(target, 'w')
        os.makedirs(work, exist_ok=True)

        def one(s):
            name, want, body = s
            f = os.path.join(work, name.replace('-', '_') + '.rs')
            with open(f, 'w') as h:
                h.write('#![allow(warnings)]\n' + prelude + body)
            cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '-o', f + '.rmeta', '--error-format', 'json', '--cfg', 'tokio_unstable', f]
            for k, v in ext.items():
                cmd += ['--extern', '%s=%s' % (k, v)]
            for d in dirs:
                cmd += ['-L', 'dependency=' + d]
            r = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            codes, msg = set(), ''
            for l in r.stderr.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                    codes.add((d.get('code') or {}).get('code') or '-')
                    msg = msg or d['message']
            return name, [want, r.returncode == 0, sorted(codes), msg[:300]]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = dict(ex.map(one, secs))
        shutil.rmtree(os.path.join(build.CACHE, 'wtarget'), ignore_errors=True)
        for f in os.listdir(build.CACHE):
            if f.startswith('witness-%s-' % group):
                os.remove(os.path.join(build.CACHE, f))
        with open(cache, 'w') as h:
            json.dump(res, h)
        return res


def run(cx, group, only=None):
    n = 0
    for name, (want, ok, codes, msg) in results(group).items():
        if only and not re.fullmatch(only, name):
            continue
        n += 1
        site = ('verif/witness/%s.rs' % group, 0, name)
        if want == 'ok':
            cx.ob('compiles', name, ok, 'a correct program is rejected: %s %s' % (','.join(codes), msg), site)
        else:
            allowed = set(want.split(','))
            cx.ob('rejected', name, not ok, 'the program compiles, but must not', site)
            if not ok:
                cx.ob('rejected-for-the-reason', name, set(codes) <= allowed, 'rejected with %s (%s), expected %s' % (','.join(codes), msg, want), site)
    cx.extra['witness_programs'] = cx.extra.get('witness_programs', 0) + n
    return n
