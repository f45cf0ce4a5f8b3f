"""C14: LVS cache - explicit state model of the cache protocol, every transition executed by the real command line."""
import ctypes
import gzip
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C14', level='model_checking',
                 rule='breadth first search over the states (layout versions, cache and output directory contents) of each scenario, every '
                      'enabled operation in every state, each executed by the real command line; a crash at every file operation of a run')
T = chk.thorough
M = rcx.mods()
kdb = M.kdb
cli.preload()
B = kdb.Box
V = core.Violation
SKY, IHP = pylvs.SKY, pylvs.IHP

STANDIN = '''#!/bin/bash
# stand-in for klayout: -b -r SCRIPT -rd input=.. -rd report=..
for a in "$@"; do case "$a" in input=*) IN="${a#input=}";; report=*) REP="${a#report=}";; *.lvs|*.lylvs|*.drc|*.rb) SCR="$a";; esac; done
echo "call $*" >> "$KV_CALLS"
case "$SCR" in *sky130*) P=sky130A;; *) P=ihp_sg13g2;; esac
KEY=
for x in $(zcat -f "$IN" | grep -ao 'id_[A-Za-z]*[01]' | sort -u); do KEY="$KEY$x+"; done
DB="$KV_DB/$P/$KEY"
[ -f "$DB" ] || { echo "no database for $P $KEY" ; echo "unknown $P $KEY" >> "$KV_CALLS"; exit 3; }
N=$(stat -c %s "$DB")
case "$KV_LVS" in
ok) cp "$DB" "$REP"; exit 0;;
fail) cp "$DB" "$REP"; exit 1;;
nofile) exit 1;;
nofile0) exit 0;;
edit) cp "$KV_EDIT_SRC" "$KV_EDIT_DST.new"; sleep 0.02; mv "$KV_EDIT_DST.new" "$KV_EDIT_DST"; touch "$KV_EDIT_DST"; cp "$DB" "$REP"; exit 0;;
empty) : > "$REP"; exit 1;;
torn*) head -c $((N * ${KV_LVS#torn} / 100)) "$DB" > "$REP"; exit 1;;
sig) head -c $((N / 2)) "$DB" > "$REP"; kill -9 $$;;
sig0) kill -9 $$;;
both) head -c $((N / 2)) "$DB" > "$REP"; kill -9 $PPID; sleep 0.05; exit 1;;
both1) cp "$DB" "$REP"; kill -9 $PPID; sleep 0.05; exit 1;;
esac
'''
# ------------------------------------------------------------------ layouts: file -> cells; ids of a cell in a version
FILES = {'a': ('w/a.gds', {'TOP': ('aT',)}), 'd': ('w/d/a.gds', {'TOP': ('dT',)}),
         'm': ('w/m.gds', {'TOP': ('mT', 'mS'), 'SUB': ('mS',), 'OTH': ('mO',)})}


def key_of(f, cell, ver):
    return ''.join(sorted(f"id_{x}{ver}+" for x in FILES[f][1][cell]))


def gds_bytes(path, f, ver):
    ly = kdb.Layout()
    cells = {}
    for c in FILES[f][1]:
        cells[c] = ly.create_cell(c)
        own = f"id_{FILES[f][1][c][0]}{ver}"
        cells[c].shapes(ly.layer(67, 20)).insert(B(0, 0, 1000 + ver, 200))
        cells[c].shapes(ly.layer(67, 5)).insert(kdb.Text(own, 10, 10))
    if 'SUB' in cells:
        cells['TOP'].insert(kdb.CellInstArray(cells['SUB'].cell_index(), kdb.Trans(0, 5000)))
    ly.write(path)


def prepare(root):
    """all layout versions and all LVS databases"""
    for pdk in (SKY, IHP):
        os.makedirs(f"{root}/db/{pdk}")
        a = pylvs.LEVELS[pdk][1][0]
        for f in FILES:
            for c in FILES[f][1]:
                for ver in (0, 1):
                    k = key_of(f, c, ver)
                    pylvs.make(pdk, {a: [B(0, 0, 5000, 1000), B(0, 1500 + 100 * ver, 5000, 2500)]},
                               [(a, k.replace('+', '.'), 100, 100), (a, 'x', 100, 2000)], cell=c,
                               path=f"{root}/db/{pdk}/x.lvsdb.gz")
                    os.rename(f"{root}/db/{pdk}/x.lvsdb.gz", f"{root}/db/{pdk}/{k}")
    for f in FILES:
        for ver in (0, 1):
            gds_bytes(f"{root}/{f}{ver}.gds", f, ver)
    with open(f"{root}/klayout", 'w') as fh:
        fh.write(STANDIN)
    os.chmod(f"{root}/klayout", 0o755)


# ------------------------------------------------------------------ real execution of an operation in directory `world`
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def crash_hook(n, torn):
    """dies at the n-th file operation (torn: after having done half of it)"""
    left = [n]
    names = {'os.rename', 'os.remove', 'os.mkdir', 'os.utime', 'os.truncate', 'os.link', 'os.symlink', 'os.rmdir', 'os.chmod',
             'shutil.copyfile', 'shutil.move', 'shutil.rmtree', 'subprocess.Popen'}

    def hook(ev, args):
        if left[0] == 0:
            return
        if ev == 'open':
            if not (isinstance(args[1], str) and set(args[1]) & set('wax+') or (isinstance(args[2], int) and args[2] & WRITE)):
                return
            if isinstance(args[0], int) or str(args[0]).startswith('/dev'):
                return
        elif ev not in names:
            return
        left[0] -= 1
        if left[0]:
            return
        if torn:
            if ev == 'open':
                os.close(os.open(args[0], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)) if 'a' not in str(args[1]) else None
            elif ev == 'shutil.copyfile':
                with open(args[0], 'rb') as s:
                    d = s.read()
                fd = os.open(args[1], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.write(fd, d[:len(d) // 2])
                os.close(fd)
        os._exit(137)
    sys.addaudithook(hook)


def reap():
    """wait for the stand-in, if it survives the crash of its parent"""
    try:
        while True:
            os.waitpid(-1, 0)
    except ChildProcessError:
        pass


ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)     # PR_SET_CHILD_SUBREAPER


def execute(world, root, op):
    """-> observation dict"""
    kind = op[0]
    if kind == 'edit':
        _, f, ver = op
        dst = f"{world}/{FILES[f][0]}"
        shutil.copyfile(f"{root}/{f}{ver}.gds", dst)
        time.sleep(0.003)
        os.utime(dst)
        time.sleep(0.003)
        return {}
    if kind == 'tear':
        for d, _, fs in os.walk(world):
            for x in fs:
                if x.endswith('.lvsdb.gz'):
                    p = os.path.join(d, x)
                    os.truncate(p, os.path.getsize(p) * op[1] // 100)
        return {}
    if kind == 'rmcache':
        for d, _, fs in os.walk(world):
            for x in fs:
                if x.endswith('.lvsdb.gz') and '/w' not in d[len(world):][:2]:
                    os.unlink(os.path.join(d, x))
        return {}
    _, f, cell, pdk, cache, lvs, form, crash = op
    out, cdir, rel, arg = form
    g = FILES[f][0] if rel else os.path.join(world, FILES[f][0])
    argv = ['--pdk', pdk, '--gds', g, '--out_dir', out, '--2.5D', '--mode', 'CC', '--log_level', 'error']
    if arg:
        argv += ['--cell', cell]
    if cdir:
        argv += ['--cache-dir', cdir if not cdir.startswith('/') else world + cdir]
    if cache is not None:
        argv += ['--cache-lvs', str(cache)]
    calls = f"{world}/calls"
    if os.path.exists(calls):
        os.unlink(calls)
    # results of earlier runs must not be mistaken for those of this one
    for d, _, fs in os.walk(os.path.join(world, out)):
        for x in fs:
            if x.endswith('.csv') or x.endswith('.spice') and 'netlist' in x:
                os.unlink(os.path.join(d, x))
    other = 1
    with open(f"{world}/{FILES[f][0]}", 'rb') as fh:
        cur = fh.read()
    with open(f"{root}/{f}0.gds", 'rb') as fh:
        other = 1 if fh.read() == cur else 0
    env = {'KPEX_KLAYOUT_EXE': f"{root}/klayout", 'KV_DB': f"{root}/db", 'KV_CALLS': calls, 'KV_LVS': lvs, 'COLUMNS': '200',
           'KV_EDIT_SRC': f"{root}/{f}{other}.gds", 'KV_EDIT_DST': f"{world}/{FILES[f][0]}"}

    def fn():
        sys.argv = ['kpex', *argv]
        from klayout_pex.kpex_cli import KpexCLI
        if crash:
            crash_hook(*crash)
        KpexCLI().main(['kpex', *argv])
    time.sleep(0.002)
    r = cli.child(fn, world, env, f"{world}/console")
    reap()
    time.sleep(0.002)
    csv = [os.path.join(d, x) for d, _, fs in os.walk(os.path.join(world, out)) for x in fs if x.endswith('_k25d_pex_netlist.csv')]
    nets = None
    if csv and r.status == 0:
        nets = sorted({n for row in cli.read_csv(csv[0]) for n in row[1:3]})
    ncalls = 0
    if os.path.exists(calls):
        with open(calls) as fh:
            t = fh.read()
        if 'unknown' in t:
            return {'status': r.status, 'calls': 1, 'nets': nets, 'out': t, 'wrong': t}
        ncalls = t.count('call ')
    return {'status': r.status, 'calls': ncalls, 'nets': nets, 'csvs': len(csv), 'out': r.out[-800:]}


# ------------------------------------------------------------------ the model
# state: (versions ((file, ver), ...), valid ((key, 'yes'|'maybe'), ...)); key = (file, cell, pdk, cache dir, path form)
def ck(op):
    _, f, cell, pdk, cache, lvs, form, crash = op
    out, cdir, rel, arg = form
    return (f, cell, pdk, cdir.lstrip('/') if cdir else out + '/.kpex_cache')


def step(state, op):
    """-> (list of (allowed observation, next state)); observation: (exit 0?, LVS calls, version used or None)"""
    vers, valid = dict(state[0]), dict(state[1])

    def pack(vs, va):
        return (tuple(sorted(vs.items())), tuple(sorted(va.items())))
    if op[0] == 'edit':
        vers[op[1]] = op[2]
        return [(None, pack(vers, {k: v for k, v in valid.items() if k[0] != op[1]}))]
    if op[0] in ('rmcache', 'tear'):
        return [(None, pack(vers, {}))]
    _, f, cell, pdk, cache, lvs, form, crash = op
    k = ck(op)
    cached = cache is not False
    v = valid.get(k) if cached else None
    res = []
    if crash:
        va = dict(valid)
        if cached and v != 'yes':
            va[k] = 'maybe'
        # (either the crash point was reached, or the run ended before it)
        return [('crash', pack(vers, va)), ((True, None, vers[f]), pack(vers, {**va, **({k: 'yes'} if cached else {})}))]
    if v in ('yes', 'maybe'):
        res.append(((True, 0, vers[f]), pack(vers, {**valid, k: 'yes'})))
    if v in (None, 'maybe'):
        rest = {x: y for x, y in valid.items() if not (x == k and cached)}
        if lvs in ('ok', 'fail'):       # (exit status 1 is usual: sky130.lvs reports netlist mismatches like this)
            res.append(((True, 1, vers[f]), pack(vers, {**valid, **({k: 'yes'} if cached else {})})))
        elif lvs == 'edit':
            nv = dict(vers)
            nv[f] = 1 - vers[f]
            res.append(((True, 1, vers[f]), pack(nv, {x: y for x, y in valid.items() if x[0] != f})))
        elif lvs.startswith('both'):
            res.append(('crash', pack(vers, rest)))
        else:
            res.append(((False, 1, None), pack(vers, rest)))
    return res


def match(state, op, obs):
    """the next model state, or raises V"""
    alts = step(state, op)
    if op[0] in ('edit', 'rmcache', 'tear'):
        return alts[0][1]
    _, f, cell, pdk, cache, lvs, form, crash = op
    if obs.get('wrong'):
        raise V(f"LVS was started for another layout, cell or PDK: {obs['wrong']}")
    used = None
    if obs['status'] == 0:
        if obs['nets'] is None:
            raise V(f"exit status 0 without a result: {obs['out']}")
        for ver in (0, 1):
            if [n for n in obs['nets'] if n != 'VSUBS'] == sorted(['x', key_of(f, cell, ver).replace('+', '.')]):
                used = ver
        if used is None:
            raise V(f"the result stems from another layout or cell: nets {obs['nets']}")
        if obs['csvs'] != 1:
            raise V(f"{obs['csvs']} results")
    elif obs['nets']:
        raise V('failed run with a result')
    o = (obs['status'] == 0, obs['calls'], used)
    for exp, nxt in alts:
        if exp == 'crash':
            if obs['status'] in (137, -9):
                return nxt
        elif exp[0] == o[0] and exp[1] in (None, o[1]) and exp[2] == o[2]:
            return nxt
    raise V(f"run ended with (success, LVS calls, layout version used) = {o}, the model allows {[a[0] for a in alts]}; "
            f"current version {dict(state[0])[f]}\n{obs['out']}")


# ------------------------------------------------------------------ abstraction of the real state
def scan(world, root, files):
    ident = {}
    for pdk in (SKY, IHP):
        for k in os.listdir(f"{root}/db/{pdk}"):
            with open(f"{root}/db/{pdk}/{k}", 'rb') as fh:
                ident[fh.read()] = (pdk, k)
    items = []
    for d, _, fs in os.walk(world):
        rel = d[len(world):].replace(world, '/WORLD')
        for x in sorted(fs):
            p = os.path.join(d, x)
            if 'lvsdb' in x:
                with open(p, 'rb') as fh:
                    c = fh.read()
                i = ident.get(c, ('torn', len(c) > 0))
                age = tuple(os.path.getmtime(p) > os.path.getmtime(f"{world}/{FILES[f][0]}") for f in files)
                parts = x.split('.')
                items.append((rel, '.'.join(q for q in parts if not q.isdigit()), i, age))
    return tuple(sorted(set(items)))


# ------------------------------------------------------------------ scenarios
F0 = ('out', None, True, False)
OK = 'ok'


def run(f, cell='TOP', pdk=SKY, cache=True, lvs=OK, form=F0, crash=None):
    return ('run', f, cell, pdk, cache, lvs, form, crash)


def scenarios(kmax):
    faults = ['fail', 'nofile', 'nofile0', 'empty', 'torn10', 'torn50', 'torn90', 'torn99', 'sig', 'sig0', 'both', 'both1', 'edit']
    yield ('faults', ('a',), [('edit', 'a', 0), ('edit', 'a', 1), ('rmcache',), ('tear', 50), ('tear', 97)] +
           [run('a', lvs=l) for l in [OK] + faults] + [run('a', cache=False, lvs=l) for l in (OK, 'fail', 'torn50', 'nofile')] +
           [run('a', cache=None)], None)
    yield ('crashes', ('a',), [('edit', 'a', 0), ('edit', 'a', 1), run('a'), run('a', lvs='nofile')] +
           [run('a', crash=(k, t)) for k in range(1, kmax + 1) for t in (False, True)] +
           [run('a', lvs='fail', crash=(k, False)) for k in range(1, kmax + 1, 2)], None)
    yield ('names', ('a', 'd'), [('edit', f, v) for f in 'ad' for v in (0, 1)] + [run(f) for f in 'ad'] +
           [run(f, lvs='nofile') for f in 'ad'] + [run(f, lvs='fail') for f in 'ad'] + [run(f, cache=False) for f in 'ad'] +
           [run('a', lvs='torn50')], None if T else 4)
    C = ('out', None, True, True)
    yield ('cells', ('m',), [('edit', 'm', 0), ('edit', 'm', 1)] + [run('m', c, form=C) for c in ('TOP', 'SUB', 'OTH')] +
           [run('m', c, lvs='nofile', form=C) for c in ('TOP', 'SUB', 'OTH')] + [run('m', 'SUB', lvs='fail', form=C), run('m', 'SUB', cache=False, form=C)], None if T else 4)
    yield ('pdks', ('a',), [('edit', 'a', 0), ('edit', 'a', 1)] + [run('a', pdk=p, lvs=l) for p in (SKY, IHP) for l in (OK, 'nofile', 'fail', 'edit')] +
           [run('a', pdk=p, cache=False) for p in (SKY, IHP)], None if T else 4)
    forms = [('out', None, True, False), ('out', None, False, False), ('o2', None, True, False), ('out', 'cc', True, False), ('o2', '/cc', False, False)]
    yield ('places', ('a',), [('edit', 'a', 0), ('edit', 'a', 1)] + [run('a', form=f) for f in forms] + [run('a', form=f, lvs='nofile') for f in forms[:2] + forms[-1:]], None if T else 4)
    if T:
        yield ('names+cells', ('a', 'd', 'm'), [('edit', f, v) for f in 'adm' for v in (0, 1)] +
               [run('a'), run('d'), run('m', 'TOP', form=C), run('m', 'SUB', form=C), run('a', lvs='nofile'), run('m', 'SUB', lvs='edit', form=C),
                run('a', pdk=IHP), run('d', lvs='torn50'), run('a', crash=(12, True))], None)


def new_world(world, root, files):
    for f in ('a', 'd', 'm'):
        p = f"{world}/{FILES[f][0]}"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f in files:
            shutil.copyfile(f"{root}/{f}0.gds", p)
    time.sleep(0.005)


WORLD = {}


def worker(conn, i, root):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    base = f"{root}/k{i}"
    os.makedirs(base)
    world = f"{base}/wrld{i}"
    n = itertools.count()
    while True:
        msg = conn.recv()
        if msg is None:
            break
        out = []
        if msg[0] == 'init':
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(world)
            new_world(world, root, msg[1])
            s = f"{base}/s{next(n)}"
            shutil.copytree(world, s, symlinks=True)
            conn.send((s, scan(world, root, msg[1])))
            continue
        if msg[0] == 'drop':
            for s in msg[1]:
                shutil.rmtree(s, ignore_errors=True)
            conn.send(None)
            continue
        _, files, tasks = msg
        seen = {}
        for (snap, model, op) in tasks:
            shutil.rmtree(world, ignore_errors=True)
            shutil.copytree(snap, world, symlinks=True)
            try:
                obs = execute(world, root, op)
                nxt = match(model, op, obs)
            except V as e:
                out.append((model, op, None, None, str(e), None))
                continue
            except Exception as e:
                if core._unreadable(e) or core._touches_repo(e.__traceback__):
                    out.append((model, op, None, None, f"the run cannot be interpreted: {e!r}", None))
                    continue
                import traceback
                out.append((model, op, None, None, None, traceback.format_exc()))
                continue
            st = (nxt, scan(world, root, files))
            if st not in seen:
                seen[st] = f"{base}/s{next(n)}"
                shutil.copytree(world, seen[st], symlinks=True)
            out.append((model, op, st, seen[st], None, (obs.get('status'), obs.get('calls'))))
        conn.send(out)


def crashing(op):
    return int(op[0] == 'run' and op[7] is not None)


def explore_scenario(name, files, ops, conns, root, depth):
    init = (tuple(sorted((f, 0) for f in files)), ())
    snaps = {}
    first = None
    for i, c in enumerate(conns):
        c.send(('init', files))
    inits = [c.recv() for c in conns]
    first = (init, inits[0][1])
    visited = {first: 0}
    parent = {first: None}
    crashes = {first: 0}      # (fewest crashes of a history leading to the state)
    # the initial state exists in all workers
    frontier = [(first, {i: s[0] for i, s in enumerate(inits)})]
    trans = 0
    level = 0
    outcomes = set()
    while frontier and (depth is None or level < depth):
        level += 1
        jobs = [[] for _ in conns]
        back = [[] for _ in conns]
        for st, owners in frontier:
            for op in ops:
                if crashing(op) and crashes[st] >= (2 if T else 1):
                    continue
                i = min(owners, key=lambda q: len(jobs[q]))
                jobs[i].append((owners[i], st[0], op))
                back[i].append(st)
        for c, j in zip(conns, jobs):
            c.send(('run', files, j))
        nxt = {}
        for i, c in enumerate(conns):
            for (model, op, st, snap, err, info), src in zip(c.recv(), back[i]):
                trans += 1
                if err is None and st is None:
                    print(info)
                    raise core.HarnessError('worker failed')
                if err is not None:
                    path = []
                    q = src
                    while parent[q] is not None:
                        q, o = parent[q]
                        path.append(o)
                    chk.add_violation(name, tuple(path[::-1]) + (op,), err)
                    continue
                outcomes.add((op[0], op[5] if op[0] == 'run' else None, info))
                nc = crashes[src] + crashing(op)
                if st not in visited:
                    visited[st] = level
                    crashes[st] = nc
                    parent[st] = (src, op)
                    nxt[st] = {}
                elif st in nxt:
                    crashes[st] = min(nc, crashes[st])
                if st in nxt:
                    nxt[st][i] = snap
        if chk.viol:
            break
        old = [[] for _ in conns]
        for st, owners in frontier:
            for i, s in owners.items():
                old[i].append(s)
        for c, o in zip(conns, old):
            c.send(('drop', o))
        for c in conns:
            c.recv()
        frontier = list(nxt.items())
        if os.environ.get('KV_PROGRESS'):
            print(name, level, len(frontier), trans, [x[0] for x, _ in frontier[:6]], [x[1] for x, _ in frontier[:6]], flush=True)
    return len(visited), trans, level, not frontier, outcomes


def crash_points(root):
    """number of file operations of an uninterrupted run"""
    w = f"{root}/probe/w0"
    os.makedirs(w)
    new_world(w, root, ('a',))
    lo = 0
    for k in range(1, 200):
        shutil.rmtree(w)
        os.makedirs(w)
        new_world(w, root, ('a',))
        o = execute(w, root, run('a', crash=(k, False)))
        if o['status'] == 0:
            return k - 1
    chk.add_violation('probe', ('a',), f"an uninterrupted run fails, or takes more than 200 file operations: "
                      f"{o['status']!r}")
    chk.finish()


root = chk.wdir + '/c14'
os.makedirs(root)
prepare(root)


def replay(scn, ops):
    w = f"{root}/rep/w0"
    files = [s for s in scenarios(40) if s[0] == scn][0][1]
    os.makedirs(w)
    new_world(w, root, files)
    st = (tuple(sorted((f, 0) for f in files)), ())
    for op in ops:
        obs = execute(w, root, op)
        print('  ', op, {k: v for k, v in obs.items() if k != 'out'})
        st = match(st, op, obs)


if chk.replay is not None:
    try:
        replay(chk.replay['stage'], core._untuple(chk.replay['case']))
    except V as e:
        chk.add_violation(chk.replay['stage'], core._untuple(chk.replay['case']), str(e))
    chk.finish()

kmax = crash_points(root)
procs, conns = [], []
ctx = mp.get_context('fork')
for i in range(chk.nproc):
    a, b = ctx.Pipe()
    p = ctx.Process(target=worker, args=(b, i, root), daemon=True)
    p.start()
    procs.append(p)
    conns.append(a)
states = transitions = 0
summary = {}
for name, files, ops, depth in scenarios(kmax):
    t = time.time()
    s, tr, lv, fix, oc = explore_scenario(name, files, ops, conns, root, depth)
    states += s
    transitions += tr
    chk.count(tr)
    for o in oc:
        chk.outcomes.add((name, o))
    summary[name] = {'states': s, 'transitions': tr, 'depth': lv, 'fixpoint': fix, 'operations': len(ops), 'wall_s': round(time.time() - t, 1)}
    print(f"[C14] scenario {name}: {s} states, {tr} transitions, depth {lv}, fixpoint {fix}, {round(time.time() - t, 1)} s", flush=True)
    chk.samples.append({'scenario': name, 'operations': [repr(o) for o in ops[:4]], 'states': s})
    if chk.viol:
        break
for c in conns:
    c.send(None)
chk.extra['scenarios'] = summary
chk.extra['crash_points'] = kmax
chk.extra['binding'] = 'every transition of the model was executed by the real command line from a real directory state; exit status, LVS ' \
                       'invocations and the layout version found in the result must be one the model allows'
chk.finish(states=states, transitions=transitions, traces=transitions)
