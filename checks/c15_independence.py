"""C15: results of an engine depend on layout and options only - not on the other engines of the run, on earlier runs in the
process or output directory, on how the output directory is given, or on the hash seed of the interpreter."""
import gzip
import hashlib
import itertools
import os
import re
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C15', rule='every subset of the four engines x layout x PDK x options; every history of two (thorough: three) runs over ten configurations, in one '
                 'process and in several; every form of the output directory; hash seeds; each result file compared with a fresh run of that engine alone')
T = chk.thorough
V = core.Violation
kdb = rcx.mods().kdb
cli.preload()
B = kdb.Box
SKY, IHP = pylvs.SKY, pylvs.IHP
ROOT = chk.wdir + '/c15'
os.makedirs(f"{ROOT}/db")

# ------------------------------------------------------------------------------------------------ stand-ins for the tools
# Their results are functions of everything they are given (contents, not paths), as those of the real tools are.
PY = f'''#!{sys.executable} -IS
import hashlib, os, re, sys
A = sys.argv[1:]
N = os.path.basename(sys.argv[0])


def names_of(lst):
    base, names, h = os.path.dirname(os.path.abspath(lst)), [], hashlib.sha1()
    for line in open(lst, encoding='utf-8'):
        w = line.split()
        h.update((' '.join(x for x in w if '/' not in x) + '\\n').encode())
        if not w or w[0] not in 'CD':
            continue
        p = os.path.join(base, w[1])
        for l in open(p, encoding='utf-8'):
            h.update(l.encode())
            if w[0] == 'C' and l.startswith('N '):
                n = l.split(None, 2)[2].strip()
                if n not in names:
                    names.append(n)
    return names, h


def matrix(k, h):
    m = [[0.0] * k for _ in range(k)]
    for i in range(k):
        for j in range(i):
            m[i][j] = m[j][i] = -(1 + int(hashlib.sha1(h + b'%d %d' % (i, j)).hexdigest()[:4], 16) / 1000)
    for i in range(k):
        m[i][i] = 3 - sum(m[i])
    return m


if N == 'fastercap':
    names, h = names_of(A[-1])
    h.update(' '.join(A[:-1]).encode())
    m = matrix(len(names), h.digest())
    print('Running FasterCap version 6.0.7\\nCapacitance matrix is:\\nDimension %d x %d' % (len(m), len(m)))
    for i, n in enumerate(names):
        print('g%d_%s  %s ' % (i + 1, n, ' '.join('%.6ge-9' % v for v in m[i])))
    print('\\nTotal time: 0.1s')
elif N == 'fastcap':
    lst = [a[2:] if a.startswith('-l') else a for a in A if a.startswith('-l') or not a.startswith('-')][-1]
    names, h = names_of(lst)
    m = matrix(len(names), h.digest())
    print('Running fastcap 2.0 (18Sept92)\\n\\nCAPACITANCE MATRIX, picofarads')
    print(' ' * 24 + ' '.join(str(i + 1) for i in range(len(m))))
    for i, n in enumerate(names):
        print('%s%%GROUP%d %d %s' % (n, i + 1, i + 1, ' '.join('%.6g' % v for v in m[i])))
    print('\\nTOTAL TIME: 0.01')
elif N == 'magic':
    s = open(A[-1]).read()
    d = os.path.dirname(os.path.abspath(A[-1]))
    gds = re.search(r'^gds read (.*)$', s, re.M).group(1).replace('\\\\', '')
    k = hashlib.sha1(open(gds, 'rb').read() + re.sub(r'(\\\\.|[^ \\n\\\\])*/(\\\\.|[^ \\n\\\\])*', '', s).encode()).hexdigest()
    v = int(k[:4], 16)
    open(d + '/TOP.ext', 'w').write('timestamp 0\\nversion 8.3\\ntech x\\nscale 1000 1 0.5\\nport "x" 1 0 0 %d 100 m1\\nnode "x" 10 20 0 %d m1 0 0\\n' % (v, v))
    if 'extresist' in s:
        open(d + '/TOP.res.ext', 'w').write('rnode "x" 0 5 0 %d 0\\nrnode "y" 0 5 9 %d 0\\nresist "x" "y" %d.5\\n' % (v, v, v))
    open(d + '/TOP.pex.spice', 'w').write('* Magic\\n.subckt TOP x y\\nC0 x y %dfF\\n.ends\\n' % v)
    print('Magic done')
elif N == 'klayout':
    o = dict(a.split('=', 1) for a in A if '=' in a)
    k = hashlib.sha1(open(o['input'], 'rb').read()).hexdigest()
    open(o['report'], 'wb').write(open({ROOT + '/db/'!r} + k, 'rb').read())
    print('LVS done')
'''
TOOLS = ('fastercap', 'fastcap', 'magic', 'klayout')
for t_ in TOOLS:
    with open(f"{ROOT}/{t_}", 'w') as f_:
        f_.write(PY)
    os.chmod(f"{ROOT}/{t_}", 0o755)
with open(f"{ROOT}/magicrc", 'w') as f_:
    f_.write('# rc\n')
ENV = {f"KPEX_{t.upper()}_EXE": f"{ROOT}/{t}" for t in TOOLS}


def layout(pdk, k):
    """a wire pair and a crossing, plus an inner net without a label"""
    a, b = pylvs.LEVELS[pdk][1][0], pylvs.LEVELS[pdk][2][0]
    s = k * 200
    boxes = {a: [B(0, 0, 5000 + s, 1000), B(0, 1500, 5000, 2500 + s), B(0, 4000, 2000, 4600)], b: [B(1000, -500, 1800 + s, 3500)]}
    labels = [(a, 'x', 100, 100), (a, 'y', 100, 2000), (b, 'z', 1200, 0)]
    d = f"{ROOT}/{pdk}{k}"
    os.makedirs(d)
    ly = kdb.Layout()
    c = ly.create_cell('TOP')
    for i, (n, bs) in enumerate(boxes.items()):
        for x in bs:
            c.shapes(ly.layer((66 if pdk == SKY else 8) + i, 20 if pdk == SKY else 0)).insert(x)
    ly.write(f"{d}/t.gds")
    h = hashlib.sha1(open(f"{d}/t.gds", 'rb').read()).hexdigest()
    pylvs.make(pdk, boxes, labels, cell='TOP', path=f"{d}/t.lvsdb.gz")
    shutil.copyfile(f"{d}/t.lvsdb.gz", f"{ROOT}/db/{h}")
    return d


DIR = {(p, k): layout(p, k) for p in (SKY, IHP) for k in (0, 1)}
ENGINES = ('2.5D', 'fastercap', 'fastcap', 'magic')
FLAG = {'2.5D': '--2.5D', 'fastercap': '--fastercap', 'fastcap': '--fastcap', 'magic': '--magic'}


def owner(path):
    """engine a result file belongs to; None: not a result of an engine (logs, cached or intermediate LVS files)"""
    n = os.path.basename(path)
    if path.startswith('magic_'):
        return 'magic'
    if '_k25d_' in n:
        return '2.5D'
    if 'FastCap2' in n:
        return 'fastcap'
    if 'FasterCap_Output' in n or 'FasterCap_Result' in n or 'FasterCap_Expanded' in n or 'FasterCap_Reduced' in n:
        return 'fastercap'
    return None


def canon_layout(p):
    ly = kdb.Layout()
    ly.read(p)
    return sorted((str(ly.get_info(li)), c.name, sorted(str(s) for s in c.shapes(li).each())) for li in ly.layer_indexes() for c in ly.each_cell() if not c.shapes(li).is_empty())


def load(p, base):
    with open(p, 'rb') as f:
        d = f.read()
    if d[:2] == b'\x1f\x8b':
        d = gzip.decompress(d)
    if p.endswith('.tcl'):
        d = b'\n'.join(x for x in d.split(b'\n') if not x.startswith(b'#'))
    d = d.decode('utf-8', 'replace')
    for b in {base, os.path.realpath(base), re.sub(r'([^\w./:+,=@%-])', r'\\\1', base), re.sub(r'([^\w./:+,=@%-])', r'\\\1', os.path.realpath(base))}:
        d = d.replace(b, '<OUT>')
    return d


def snapshot(base):
    """result files of an output directory"""
    res = {}
    for r, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(r, f)
            q = os.path.relpath(p, base)
            if owner(q):
                res[q] = load(p, base)
    return res


def argv_of(cfg, out):
    pdk, k, engines, opts = cfg
    d = DIR[pdk, k]
    a = ['--pdk', pdk, '--gds', f"{d}/t.gds", '--log_level', 'error', '--cache-lvs', 'false', *opts]
    a += [FLAG[e] for e in engines]
    if 'magic' in engines:
        a += ['--magicrc', f"{ROOT}/magicrc"]
    if out is not None:
        a += ['--out_dir', out]
    return a


_alone = {}


def alone(cfg, e):
    """result files of engine e for the configuration, in a fresh process and directory, with no other engine"""
    pdk, k, _, opts = cfg
    key = (pdk, k, e, opts)
    if key not in _alone:
        d = f"{ROOT}/alone{os.getpid()}_{len(_alone)}"
        os.makedirs(d)
        r = cli.kpex(argv_of((pdk, k, (e,), opts), f"{d}/out"), d, ENV)
        if r.status != 0:
            raise V(f"{e} alone: {argv_of((pdk, k, (e,), opts), 'out')}: {r}")
        _alone[key] = {p: v for p, v in snapshot(f"{d}/out/t__TOP").items()}
        if not _alone[key] or {owner(p) for p in _alone[key]} != {e}:
            raise V(f"{e} alone: result files {sorted(_alone[key])}")
        shutil.rmtree(d)
    return _alone[key]


def same(base, cfg, what, exact=True):
    got = snapshot(base)
    want = {}
    for e in cfg[2]:
        want.update(alone(cfg, e))
    for p in want:
        if p not in got:
            raise V(f"{what}: the result file {p} is missing, {owner(p)} alone writes it")
        if got[p] != want[p]:
            a, b = got[p].split('\n'), want[p].split('\n')
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise V(f"{what}: {p} differs from the one of {owner(p)} alone, line {k + 1}: {a[k:k + 1]} / {b[k:k + 1]}")
    if exact and set(got) != set(want):
        raise V(f"{what}: unexpected result files {sorted(set(got) - set(want))}")


def run1(cfg, d, out, env=None):
    return cli.kpex(argv_of(cfg, out), d, {**ENV, **(env or {})})


OPTS = [(), ('--mode', 'RC', '--magic_mode', 'RC'), ('--k_void', '2.5', '--halo', '3', '--threads', '4', '--blackbox', 'y'), ('--diel', 'none', '--magic_halo', '2', '--mode', 'R', '--magic_mode', 'R')]


def subset_body(case):
    cfg = case
    d = f"{ROOT}/s{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = run1(cfg, d, f"{d}/out")
    if r.status != 0:
        raise V(f"{argv_of(cfg, 'out')}: {r}")
    same(f"{d}/out/t__TOP", cfg, f"{cfg[0]}, layout {cfg[1]}, engines {cfg[2]}, options {cfg[3]}")
    shutil.rmtree(d)
    return {'runs': 1}, (cfg[2], cfg[3])


SUBSETS = [s for n in range(1, 5) for s in itertools.combinations(ENGINES, n)]


def subsets():
    for o in OPTS if T else OPTS[:3]:
        for pdk in (SKY, IHP):
            for s in SUBSETS:
                for k in ((0, 1) if T else (0,)):
                    yield (pdk, k, s, o)


chk.explore(subsets(), subset_body, stage='engine subsets', chunk=12)

# ------------------------------------------------------------------------------------------------ histories
CFG = [(SKY, 0, ('2.5D',), ()), (SKY, 1, ('2.5D',), OPTS[1]), (IHP, 0, ('2.5D', 'fastercap'), ()), (SKY, 0, ('fastercap',), ()),
       (SKY, 1, ('fastercap', 'fastcap'), ()), (SKY, 0, ('fastcap',), OPTS[2]), (SKY, 0, ('magic',), ()), (SKY, 1, ('magic',), OPTS[1]),
       (SKY, 0, ENGINES, ()), (SKY, 1, ('2.5D', 'magic'), OPTS[2]), (SKY, 0, ('fastercap', 'magic'), OPTS[3])]
FAIL = ('fail',)     # a run that ends with an error (a cell which does not exist)


def history_body(case):
    runs, how = case
    d = f"{ROOT}/h{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    outs = [f"{d}/out" if how != 'other dir' else f"{d}/out{i}" for i in range(len(runs))]
    argvs = [argv_of(CFG[0] if c == FAIL else c, o) + (['--cell', 'NONE'] if c == FAIL else []) for c, o in zip(runs, outs)]
    what = f"history {[c if c == FAIL else (c[0], c[1], c[2], c[3]) for c in runs]} ({how})"
    if how in ('one process', 'other dir'):
        snaps = []

        def fn():
            from klayout_pex.kpex_cli import KpexCLI
            for a in argvs:
                sys.argv = ['kpex', *a]
                try:
                    KpexCLI().main(['kpex', *a])
                    s = 0
                except SystemExit as e:
                    s = e.code or 0
                with open(f"{d}/status", 'a') as f:
                    f.write(f"{s}\n")
            import logging
            logging.shutdown()
        r = cli.child(fn, d, {'COLUMNS': '200', **ENV}, f"{d}/console")
        if r.status != 0:
            raise V(f"{what}: {r}")
        st = [int(x) for x in open(f"{d}/status").read().split()]
    else:
        st = []
        for a in argvs:
            r = cli.kpex(a, d, ENV)
            st.append(r.status)
    for c, s in zip(runs, st):
        if (s == 0) != (c != FAIL):
            raise V(f"{what}: exit statuses {st}; {r}")
    if how == 'other dir':
        for c, o in zip(runs, outs):
            if c != FAIL:
                same(f"{o}/t__TOP", c, what)
    elif runs[-1] != FAIL:
        same(f"{d}/out/t__TOP", runs[-1], what, exact=False)
    shutil.rmtree(d)
    return {'runs': len(runs)}, (how, len(runs))


def histories():
    C = CFG + [FAIL]
    for a, b in itertools.product(C, repeat=2):
        for how in ('one process', 'several processes', 'other dir'):
            if b != FAIL:
                yield ((a, b), how)
    if T:
        for h in itertools.product(C, repeat=3):
            if h[2] != FAIL:
                yield (h, 'one process')
                yield (h, 'several processes')
    else:
        for h in itertools.product([CFG[0], CFG[4], CFG[7], FAIL], repeat=3):
            if h[2] != FAIL:
                yield (h, 'one process')


chk.explore(histories(), history_body, stage='histories', chunk=8)


# ------------------------------------------------------------------------------------------------ output directories
FORMS = [('rel', 'out'), ('rel', './out'), ('rel', 'a/b/c'), ('rel', 'out/'), ('rel', '../o2'), ('rel', 'my dir'), ('rel', 'd$x[1]'), ('abs', 'out'), ('abs', 'new/deep/er'),
         ('abs', 'x/../out'), ('default', None), ('existing', 'out'), ('link', 'out'), ('rel', '.'), ('rel', 'a.b'), ('rel', 'out\u00b5')]


def dir_body(case):
    cfg, (kind, form), cwd = case
    top = f"{ROOT}/d{os.getpid()}"
    shutil.rmtree(top, ignore_errors=True)
    d = f"{top}/{cwd}"
    os.makedirs(d)
    out = form
    if kind == 'abs':
        os.makedirs(f"{d}/x")
        out = f"{d}/{form}"
    if kind == 'existing':
        os.makedirs(f"{d}/out/t__TOP")
        with open(f"{d}/out/t__TOP/other.txt", 'w') as f:
            f.write('x')
    if kind == 'link':
        os.makedirs(f"{d}/real")
        os.symlink('real', f"{d}/out")
    r = run1(cfg, d, out)
    what = f"output directory {kind} {form!r}, engines {cfg[2]}"
    if r.status != 0:
        raise V(f"{what}: {r}")
    base = os.path.join(d, form if form is not None else 'output', 't__TOP')
    if form is None and not os.path.isdir(base):
        c = [os.path.join(q, n) for q, ds, _ in os.walk(d) for n in ds if n == 't__TOP']
        if len(c) != 1:
            raise V(f"{what}: output directories {c}")
        base = c[0]
    if not os.path.isdir(base):
        raise V(f"{what}: no results there")
    base = os.path.abspath(base)
    # (files name their own location as it was given: compare with paths taken out)
    got = {p: re.sub(r'[^\s"<>()]*t__TOP', '<OUT>', v) for p, v in snapshot(base).items()}
    want = {}
    for e in cfg[2]:
        want.update({p: v.replace('<OUT>', '<OUT>') for p, v in alone(cfg, e).items()})
    if set(got) != set(want):
        raise V(f"{what}: result files missing {sorted(set(want) - set(got))}, unexpected {sorted(set(got) - set(want))}")
    for p in want:
        if p.endswith('.tcl'):
            continue                     # (paths; C13, C21)
        if got[p] != want[p]:
            raise V(f"{what}: {p} differs from the one of {owner(p)} alone in a fresh directory")
    if kind == 'existing' and not os.path.isfile(f"{base}/other.txt"):
        raise V(f"{what}: a file of the user was deleted")
    shutil.rmtree(top)
    return {'runs': 1}, (kind, form)


def dirs():
    for cfg in [CFG[8], CFG[2], CFG[9]] if not T else [c for c in CFG]:
        for f in FORMS:
            for cwd in ('w', 'my work'):
                yield (cfg, f, cwd)


chk.explore(dirs(), dir_body, stage='output directories', chunk=2)


# ------------------------------------------------------------------------------------------------ hash seeds, locale
def seed_body(case):
    cfg, env = case
    d = f"{ROOT}/e{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = {k: v for k, v in os.environ.items() if not k.startswith(('KPEX', 'PDK', 'LC_', 'LANG', 'PYTHONHASH'))}
    e.update({**ENV, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': core.REPO, 'COLUMNS': '200', **dict(env)})
    r = subprocess.run([sys.executable, '-m', 'klayout_pex', *argv_of(cfg, f"{d}/out")], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    what = f"environment {dict(env)}, {cfg}"
    if r.returncode != 0:
        raise V(f"{what}: exit status {r.returncode}: …{r.stdout.decode('utf-8', 'replace')[-800:]}")
    same(f"{d}/out/t__TOP", cfg, what)
    shutil.rmtree(d)
    return {'runs': 1}, tuple(k for k, _ in env)


def seeds():
    for cfg in (CFG[8], (IHP, 1, ENGINES, OPTS[1])):
        for s in range(16 if T else 6):
            yield (cfg, (('PYTHONHASHSEED', str(s)),))
        for loc in ('C', 'C.UTF-8', 'POSIX'):
            yield (cfg, (('LC_ALL', loc), ('PYTHONHASHSEED', '1')))
        yield (cfg, (('TERM', 'dumb'), ('COLUMNS', '20')))
        yield (cfg, (('OMP_NUM_THREADS', '3'), ('TZ', 'Pacific/Auckland')))


chk.explore(seeds(), seed_body, stage='environment', chunk=1)
chk.finish()
