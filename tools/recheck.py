"""Runs the check of each planted bug (or the given ones) with the bug applied to /repo; reports catches."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
assert subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout == ''
miss = []
for i in ids:
    d = f'{V}/seeded/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    cxx = any(l.startswith('+++ b/cxx') or l.startswith('+++ b/protos') for l in open(d + '/patch.diff'))
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    try:
        c = subprocess.run(['./check', p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run('git -C /repo checkout -- .', shell=True)
    hit = c.returncode == 1 and f'VIOLATION property={p} ' in c.stdout
    if not hit:
        miss.append(i)
    print(f"{i} {p} {'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode} {time.time()-t:.0f}s", flush=True)
print('missed:', miss)
