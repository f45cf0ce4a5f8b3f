"""Writes /verif/seeded/<id>/ for a planted bug and confirms it:  plant(id, prop, [(file, old, new)], demo, needs, breaks)
(applies it to /repo for the time of the confirmation)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
FIRST = subprocess.run(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]


def sh(c, cwd=R, t=900):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class X:
            returncode, stdout = 124, 'timeout'
        return X


def plant(id, prop, edits, demo, needs, breaks, lib=True, also=(), check=True):
    d = f"{V}/seeded/{id}"
    assert sh('git status --porcelain').stdout == '', 'repo not clean'
    os.makedirs(d, exist_ok=True)
    if demo is not None:
        pre = ''
        if lib:
            open(d + '/kpxlay.py', 'w').write(open(V + '/tools/demolib/kpxlay.py').read())
        open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo (after the build)\nD="$(cd "$(dirname "$0")" && pwd)"\n'
            'R="$PWD"\nS="$(mktemp -d)"\ntrap \'rm -rf "$S"\' EXIT\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R:$D" SCRATCH="$S" TMPDIR="$S" KPEX_KLAYOUT_EXE=/bin/true timeout 250 /opt/venv/bin/python "$D/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh(f'bash {d}/demo.sh')
    if r.returncode != 0:
        print(f'{id}: DEMO FAILS ON HEAD\n{r.stdout[-1500:]}')
        return
    try:
        for f, old, new in edits:
            s = open(f'{R}/{f}').read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        diff = sh('git diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        # removed lines must be original ones
        cur, ln, bad, rem = None, 0, [], 0
        for line in diff.split('\n'):
            if line.startswith('--- a/'):
                cur = line[6:]
            elif line.startswith('@@'):
                ln = int(line.split()[1].split(',')[0][1:])
            elif line.startswith('-') and not line.startswith('---'):
                b = sh(f'git blame -l -s -L{ln},{ln} HEAD -- {cur}').stdout.lstrip('^')
                rem += 1
                if not b.startswith(FIRST[:30]):
                    bad.append((cur, ln))
                ln += 1
            elif line.startswith(' '):
                ln += 1
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant_t.json')
        n = json.load(open('/tmp/plant_t.json'))
        ok = '23 passed' in t.stdout
        r = sh(f'bash {d}/demo.sh')
        res = []
        if check:
            for p in (prop, *also):
                t0 = time.time()
                c = sh(f'./check {p}', cwd=V)
                hit = c.returncode == 1 and f'VIOLATION property={p} ' in c.stdout
                st = [l for l in c.stdout.split('\n') if l.strip().startswith('stage ')]
                res.append(f"{p}:{'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode} {time.time()-t0:.0f}s {(st or [''])[0][:100].strip()}")
        print(f"{id}: build {b.returncode} tests {'ok' if ok else 'BROKEN ' + t.stdout[-300:]} demo {r.returncode}"
              f"{' <-- DEMO DOES NOT FAIL ' + r.stdout[-500:] if r.returncode == 0 else ''}"
              f"{' BLAME ' + str(bad) if bad or not rem else ''} | {'; '.join(res)}", flush=True)
    finally:
        sh('git checkout -- .')
        if any(f.startswith(('cxx', 'protos')) for f, _, _ in edits):
            sh('bash /opt/vp/build.sh')
