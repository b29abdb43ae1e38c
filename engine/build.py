"""Builds the MIR driver and dumps the MIR of the probe crate compiled against /repo's current
working tree.  The dump is cached under .cache by a hash of every input."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MEASURED_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
FLAGS = '--cfg=tokio_unstable -Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off'


class BuildError(Exception):
    pass


def walk(root):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.cache', 'seeded', 'evidence', '__pycache__'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.md', '.proto')) or f == 'rust-toolchain':
                yield os.path.join(d, f)


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, 'driver'), os.path.join(VERIF, 'probe'), os.path.join(VERIF, 'witness')):
        for p in walk(root):
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        err = [l for l in r.stdout.splitlines()]
        k = next((i for i, l in enumerate(err) if l.startswith('error')), max(0, len(err) - 30))
        raise BuildError(what + ':\n' + '\n'.join(err[k:k + 30]))
    return r.stdout


def nightly_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTC', 'RUSTUP_TOOLCHAIN', 'RUSTFLAGS'))}
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    return env


def driver(env, name='driver'):
    src = os.path.join(VERIF, 'driver', name + '.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, name + '-' + h)
    if not os.path.exists(out):
        run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', out + '.tmp'], env, CACHE, 'MIR driver does not build')
        os.rename(out + '.tmp', out)
    return out


def mir():
    """path of the MIR dump for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(CACHE, 'mir-%s.jsonl' % key)
        if os.path.exists(out):
            os.utime(out)
            return out
        env = nightly_env()
        drv = driver(env)
        target = os.path.join(CACHE, 'target')
        shutil.rmtree(os.path.join(CACHE, 'target'), ignore_errors=True)
        tmp = out + '.tmp'
        if os.path.exists(tmp):
            os.remove(tmp)
        probe = os.path.join(VERIF, 'probe')
        env.update(RUSTC_WRAPPER=drv, VERIF_MIR_OUT=tmp, CARGO_TARGET_DIR=target, RUSTFLAGS=FLAGS)
        cmd = ['cargo', '+nightly', 'check', '--offline', '--locked']
        if REPO != '/repo':
            raise BuildError('only /repo is analysed')
        run(cmd, env, probe, 'the probe crate (every public route of the library, instantiated with opaque parts) does not compile against the tree')
        if not os.path.exists(tmp):
            raise BuildError('the MIR driver produced no dump')
        # keep the most recent few dumps only
        old = sorted((f for f in os.listdir(CACHE) if f.startswith('mir-') and f.endswith('.jsonl')), key=lambda f: os.path.getmtime(os.path.join(CACHE, f)))
        for f in old[:-3]:
            os.remove(os.path.join(CACHE, f))
        os.rename(tmp, out)
        return out


def lint():
    """findings of the unsafe / public-signature inventory over the library crates"""
    import json
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'llock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(CACHE, 'lint-%s.jsonl' % tree_hash())
        if not os.path.exists(out):
            env = nightly_env()
            drv = driver(env, 'lint')
            target = os.path.join(CACHE, 'ltarget')
            shutil.rmtree(os.path.join(CACHE, 'ltarget'), ignore_errors=True)
            tmp = out + '.tmp'
            if os.path.exists(tmp):
                os.remove(tmp)
            env.update(RUSTC_WRAPPER=drv, VERIF_LINT_OUT=tmp, CARGO_TARGET_DIR=target, RUSTFLAGS='--cfg=tokio_unstable')
            run(['cargo', '+nightly', 'check', '--offline', '--locked'], env, os.path.join(VERIF, 'witness'), 'the library crates do not compile')
            shutil.rmtree(os.path.join(CACHE, 'ltarget'), ignore_errors=True)
            if not os.path.exists(tmp):
                raise BuildError('the inventory produced no output')
            for f in os.listdir(CACHE):
                if f.startswith('lint-') and f.endswith('.jsonl'):
                    os.remove(os.path.join(CACHE, f))
            os.rename(tmp, out)
        return [json.loads(l) for l in open(out)]


if __name__ == '__main__':
    print(mir())
