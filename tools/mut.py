"""mut.py PROPS FILE: reads blocks 'old\n====\nnew\n----' from stdin, applies each to /repo in turn, runs the checks, restores."""
import sys, subprocess
props, f = sys.argv[1].split(','), '/repo/' + sys.argv[2]
src = open(f).read()
try:
    for blk in sys.stdin.read().split('\n----\n'):
        if not blk.strip():
            continue
        old, new = (blk.strip('\n') + '\n').split('\n====\n')
        new = new.rstrip('\n')
        if src.count(old) < 1:
            print('NOT FOUND', old[:80]); continue
        open(f, 'w').write(src.replace(old, new, 1))
        for p in props:
            r = subprocess.run(['timeout', '900', 'python3', '/verif/check.py', '--property', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = r.stdout.splitlines()
            print('##', new.strip().replace('\n', ' ')[:70], '->', p, 'CAUGHT' if r.returncode == 1 else 'quiet' if r.returncode == 0 else 'EXIT %d' % r.returncode, (ls[1][:220] if r.returncode else ''))
finally:
    open(f, 'w').write(src)
