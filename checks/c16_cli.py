"""C16: command line validation and dispatch, against a decision table."""
import glob
import itertools
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C16', rule='every combination of input files x cell x engines, of environment x engines, every value of every option, '
                 'every 2.5D parameter combination; outcomes are distinct (status, started tools, results)')
T = chk.thorough
kdb = rcx.mods().kdb
cli.preload()
B = kdb.Box
V = core.Violation
SKY, IHP = pylvs.SKY, pylvs.IHP
ROOT = chk.wdir + '/c16'
os.makedirs(ROOT)

TOOL = '''#!/bin/bash
N=$(basename "$0")
echo x >> "$KV_REC/$N"
printf '%s\\n' "$@" > "$KV_REC/$N.argv"
case $N in
fastercap) printf 'Capacitance matrix is:\\nDimension 3 x 3\\ng1_VSUBS 3e-9 -1e-9 -1e-9\\ng2_x -1e-9 3e-9 -1e-9\\ng3_y -1e-9 -1e-9 3e-9\\n\\n';;
fastcap) printf '\\nCAPACITANCE MATRIX, picofarads\\n              1        2         3\\nVSUBS%%GROUP1 1       3    -1     -1\\nx%%GROUP2 2     -1     3    -1\\ny%%GROUP3 3    -1    -1    3\\n\\n';;
magic) D=$(dirname "${!#}"); for a in "$@"; do case "$a" in *.tcl) D=$(dirname "$a"); cp "$a" "$KV_REC/script";; esac; done
  printf 'timestamp 0\\nversion 8.3\\ntech sky130A\\nscale 1000 1 0.5\\n' > "$D/$KV_CELL.ext"; echo '* x' > "$D/$KV_CELL.pex.spice";;
klayout) for a in "$@"; do case "$a" in report=*) cp "$KV_DB" "${a#report=}";; input=*) cp "${a#input=}" "$KV_REC/input";; esac; done;;
esac
exit 0
'''
TOOLS = ('fastercap', 'fastcap', 'magic', 'klayout')
for t in TOOLS:
    with open(f"{ROOT}/{t}", 'w') as f:
        f.write(TOOL)
    os.chmod(f"{ROOT}/{t}", 0o755)
A = pylvs.LEVELS[SKY][1][0]
BOXES = {A: [B(0, 0, 5000, 1000), B(0, 1500, 5000, 2500)]}
LABELS = [(A, 'x', 100, 100), (A, 'y', 100, 2000)]
IN = f"{ROOT}/in"
os.makedirs(IN)
for cell in ('TOP', 'ALT', 'SUB'):
    pylvs.make(SKY, BOXES, LABELS, cell=cell, path=f"{IN}/{cell}.lvsdb.gz")
pylvs.make(SKY, BOXES, LABELS, cell='TOP', path=f"{IN}/plain.lvsdb")


def gds(path, tops):
    ly = kdb.Layout()
    sub = ly.create_cell('SUB')
    sub.shapes(ly.layer(67, 20)).insert(B(0, 0, 500, 500))
    for i, t in enumerate(tops):
        c = ly.create_cell(t)
        c.shapes(ly.layer(67, 20)).insert(B(0, 0, 5000 + i, 1000))
        c.insert(kdb.CellInstArray(sub.cell_index(), kdb.Trans(0, 1500)))
    ly.write(path)


gds(f"{IN}/one.gds", ['TOP'])
gds(f"{IN}/one.oas.gz", ['TOP'])
gds(f"{IN}/multi.gds.gz", ['TOP', 'ALT'])
for name, src, cut in (('cut.gds', 'one.gds', 60), ('cut.lvsdb', 'plain.lvsdb', 60), ('cut.lvsdb.gz', 'TOP.lvsdb.gz', 40)):
    data = open(f"{IN}/{src}", 'rb').read()
    open(f"{IN}/{name}", 'wb').write(data[:-cut])
for name in ('garbage.gds', 'garbage.lvsdb'):
    open(f"{IN}/{name}", 'w').write('this is not a layout\n')
for name in ('empty.gds', 'empty.lvsdb'):
    open(f"{IN}/{name}", 'w').close()
os.makedirs(f"{IN}/dir.gds")
os.makedirs(f"{IN}/dir.lvsdb")
open(f"{IN}/s.spice", 'w').write('.subckt TOP x y\n.ends\n.end\n')
open(f"{IN}/x.magicrc", 'w').write('# rc\n')
os.makedirs(f"{IN}/pdks/libs.tech/magic")
open(f"{IN}/pdks/libs.tech/magic/sky130A.magicrc", 'w').write('# default rc\n')

# file -> (top cells, all cells), None: unusable
GDSF = {'one.gds': (['TOP'], ['TOP', 'SUB']), 'one.oas.gz': (['TOP'], ['TOP', 'SUB']), 'multi.gds.gz': (['TOP', 'ALT'], ['TOP', 'ALT', 'SUB']),
        'cut.gds': None, 'garbage.gds': None, 'empty.gds': None, 'dir.gds': None, 'missing.gds': None, '': None}
DBF = {'TOP.lvsdb.gz': 'TOP', 'plain.lvsdb': 'TOP', 'ALT.lvsdb.gz': 'ALT', 'cut.lvsdb': None, 'cut.lvsdb.gz': None, 'garbage.lvsdb': None,
       'empty.lvsdb': None, 'dir.lvsdb': None, 'missing.lvsdb': None, '': None}
ENGINES = {'2.5D': '--2.5D', 'fastercap': '--fastercap', 'fastcap': '--fastcap', 'magic': '--magic'}
RESULTS = {'2.5D': ['{c}_k25d_pex_netlist.csv', '{c}_k25d_pex_netlist.spice', '{c}_k25d_pex_report.rdb.gz'],
           'fastercap': ['{c}_FasterCap_Expanded_Netlist.csv', '{c}_FasterCap_Expanded_Netlist.cir', '{c}_FasterCap_Reduced_Netlist.cir',
                         '{c}_FasterCap_Result_Matrix_Raw.csv', '{c}_FasterCap_Result_Matrix_Avg.csv'],
           'fastcap': ['{c}_FastCap2_Expanded_Netlist.cir', '{c}_FastCap2_Reduced_Netlist.cir', '{c}_FastCap2_Result_Matrix_Raw.csv',
                       '{c}_FastCap2_Result_Matrix_Avg.csv'],
           'magic': ['magic_CC/{c}.pex.spice', 'magic_CC/{c}_MAGIC_report.rdb.gz']}


def path(name):
    return name if name == '' else f"{IN}/{name}"


def decide(g, d, cell, engines, schematic='none', rc='given', exe='ok'):
    """the documented rules -> (input file, cell) or the reason of the refusal"""
    if exe not in ('ok', 'path'):
        return 'no klayout'
    if not engines:
        return 'no engine'
    if 'magic' in engines and g is None:
        return 'magic needs a GDS'
    if 'magic' in engines and rc != 'given':
        return 'magic needs a magicrc'
    if g is None and d is None:
        return 'no input'
    if g is not None:
        if GDSF[g] is None:
            return 'unusable GDS'
        tops, cells = GDSF[g]
        if schematic == 'missing':
            return 'no schematic'
        if not cell:
            return ('gds', tops[0]) if len(tops) == 1 else 'ambiguous cell'
        return ('gds', cell) if cell in cells else 'unknown cell'
    if DBF[d] is None:
        return 'unusable LVSDB'
    if cell and cell != DBF[d]:
        return 'unknown cell'
    return ('lvsdb', DBF[d])


def run(w, argv, env=None, cell='TOP'):
    rec = f"{w}/rec"
    os.makedirs(rec)
    e = {'KV_REC': rec, 'KV_CELL': cell, 'KV_DB': f"{IN}/{cell}.lvsdb.gz", 'OMP_NUM_THREADS': None, 'PDKPATH': None, 'PDK': None}
    for t in TOOLS:
        e[f"KPEX_{t.upper()}_EXE"] = f"{ROOT}/{t}"
    e.update(env or {})
    r = cli.kpex([*argv, '--out_dir', f"{w}/out"], w, e)
    started = {}
    for t in TOOLS:
        if os.path.exists(f"{rec}/{t}"):
            started[t] = open(f"{rec}/{t}").read().count('x')
    res = {}
    for k, l in RESULTS.items():
        for f in l:
            hits = glob.glob(f"{w}/out/**/" + f.replace('{c}', '*'), recursive=True)
            if hits:
                res.setdefault(k, []).append(f)
    return r, started, res


def refused(what, why, r, started, res):
    if r.status == 0:
        raise V(f"{what}: accepted, but {why}")
    if r.status == cli.CRASH:
        raise V(f"{what}: no error message, but a crash ({why}): {r}")
    if not r.out.strip():
        raise V(f"{what}: no error message ({why})")
    if started:
        raise V(f"{what}: {sorted(started)} started, but {why}")
    if res:
        raise V(f"{what}: results {res}, but {why}")


def obeyed(what, w, r, started, res, engines, kind, cell):
    if r.status != 0:
        raise V(f"{what}: valid, but refused: {r}")
    want = {e: 1 for e in engines if e != '2.5D'}
    if kind == 'gds' and set(engines) - {'magic'}:
        want['klayout'] = 1
    if started != want:
        raise V(f"{what}: started {started}, selected {want}")
    if {k: sorted(v) for k, v in res.items()} != {e: sorted(RESULTS[e]) for e in engines}:
        raise V(f"{what}: results {res}, selected {sorted(engines)}")
    for k, l in res.items():
        for f in l:
            if len(glob.glob(f"{w}/out/*__{cell}/" + f.replace('{c}', cell))) != 1:
                raise V(f"{what}: no result {f} of cell {cell}")
    if 'klayout' in started:
        o = kdb.Layout()
        o.read(f"{w}/rec/input")
        tops = [t.name for t in o.top_cells()]
        if tops != [cell]:
            raise V(f"{what}: LVS was run on the cells {tops}")
    if 'magic' in started:
        with open(f"{w}/rec/script") as f:
            if cell not in f.read():
                raise V(f"{what}: the Magic script does not load cell {cell}")


def scratch(body):
    def f(case):
        w = f"{chk.wdir}/c16w_{os.getpid()}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        try:
            return body(case, w)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    return f


# ------------------------------------------------------------------ 1: inputs x cells x engines
@scratch
def input_body(case, w):
    g, d, cell, engines, schematic, rc, exe, pdkenv = case
    argv = ['--pdk', SKY, *[ENGINES[e] for e in engines], '--delaunay_amax', '50']
    if g is not None:
        argv += ['--gds', path(g)]
    if d is not None:
        argv += ['--lvsdb', path(d)]
    if cell is not None:
        argv += ['--cell', cell]
    if schematic != 'none':
        argv += ['--schematic', f"{IN}/{'s.spice' if schematic == 'given' else 'missing.spice'}"]
    if rc in ('given', 'missing'):
        argv += ['--magicrc', f"{IN}/{'x' if rc == 'given' else 'no'}.magicrc"]
    env = {'PDKPATH': f"{IN}/pdks" if 'P' in pdkenv else None, 'PDK': SKY if 'K' in pdkenv else None}
    if exe == 'missing':
        env['KPEX_KLAYOUT_EXE'] = f"{ROOT}/nonexistent"
    elif exe == 'dir':
        env['KPEX_KLAYOUT_EXE'] = ROOT
    elif exe == 'empty':
        env['KPEX_KLAYOUT_EXE'] = ''
    elif exe == 'path':
        env.update(KPEX_KLAYOUT_EXE='klayout', PATH=f"{ROOT}:{os.environ['PATH']}")
    elif exe == 'off path':
        env['KPEX_KLAYOUT_EXE'] = 'kv-no-such-tool'
    rc2 = 'given' if rc == 'given' or rc == 'none' and pdkenv == 'PK' else 'none'
    dec = decide(g, d, cell, engines, schematic, rc2, exe)
    what = 'kpex ' + ' '.join(a.replace(IN + '/', '') for a in argv[2:]) + (f" ({exe} klayout, env {pdkenv})" if exe != 'ok' or pdkenv else '')
    r, started, res = run(w, argv, env, cell=dec[1] if isinstance(dec, tuple) else cell or 'TOP')
    if isinstance(dec, str):
        refused(what, dec, r, started, res)
        return {'refused': 1}, dec
    obeyed(what, w, r, started, res, engines, *dec)
    if 'magic' in engines:
        argv_ = open(f"{w}/rec/magic.argv").read().split('\n')
        e = f"{IN}/x.magicrc" if rc == 'given' else f"{IN}/pdks/libs.tech/magic/{SKY}.magicrc"
        if e not in argv_:
            raise V(f"{what}: Magic was started with {argv_}, not with {e}")
    return {'obeyed': 1}, (dec, engines)


ALL_E = [tuple(e for i, e in enumerate(ENGINES) if m >> i & 1) for m in range(16)]


def input_cases():
    cells = (None, 'TOP', 'SUB', 'ALT', 'NOPE', 'top', 'TO', '')
    for g in (None, *GDSF):
        for d in (None, *DBF):
            if g is not None and d not in (None, 'TOP.lvsdb.gz', 'ALT.lvsdb.gz'):
                continue
            for cell in cells:
                for e in ALL_E:
                    if not T and len(e) > 1 and e not in (('2.5D', 'magic'), ('fastercap', 'fastcap'), tuple(ENGINES)):
                        continue
                    if not T and d is not None and g is not None and cell not in (None, 'TOP', 'ALT'):
                        continue
                    yield (g, d, cell, e, 'none', 'given', 'ok', '')
    for g, d in (('one.gds', None), ('multi.gds.gz', None), (None, 'TOP.lvsdb.gz')):
        for e in ALL_E:
            for schematic in ('none', 'given', 'missing'):
                for rc in ('given', 'missing', 'none'):
                    for exe in ('ok', 'path', 'off path', 'missing', 'dir', 'empty'):
                        for pdkenv in ('', 'P', 'K', 'PK'):
                            if not T and (schematic != 'none') + (rc != 'given') + (exe != 'ok') + (pdkenv != '') > 2:
                                continue
                            if schematic == 'missing' and d is not None:
                                continue
                            yield (g, d, 'TOP' if d is None else None, e, schematic, rc, exe, pdkenv)


# ------------------------------------------------------------------ 2: option values
BOOLS = (['yes', 'true', 't', 'y', '1', 'True', 'YES', 'no', 'false', 'f', 'n', '0', 'False', 'NO'], ['', '2', 'maybe', 'tru', 'on', 'none', ' '])
FLOATS = (['1', '0.5', '1e-3', '100'], ['', 'x', '1,5', '0.5um', '--'])
OPTS = {'--pdk': ([SKY, IHP], ['', 'sky130', 'SKY130A', 'sky130B', 'all']), '--log_level': (['all', 'debug', 'subprocess', 'verbose', 'info', 'warning', 'error', 'critical', 'INFO'], ['', 'inf', '20', 'loud']),
        '--threads': (['1', '8'], ['', 'x', '1.5']), '--cache-lvs': BOOLS, '--lvs-verbose': BOOLS, '--blackbox': BOOLS, '--geo_check': BOOLS,
        '--auto_precond': BOOLS, '--scale': BOOLS, '--k_void': FLOATS, '--delaunay_amax': (['50', '1e2'], FLOATS[1]), '--delaunay_b': (['0.5', '4e-1'], FLOATS[1]), '--tolerance': FLOATS,
        '--d_coeff': FLOATS, '--mesh': FLOATS, '--ooc': FLOATS, '--magic_cthresh': FLOATS, '--magic_rthresh': (['1', '100'], ['', '1.5', 'x']),
        '--magic_tolerance': FLOATS, '--magic_halo': FLOATS, '--halo': FLOATS,
        '--diel': (['all', 'none', 'all,-nild2', 'none,+nild2', '+nild2'], ['all,none', 'all,+nild2', 'none,-nild2']),
        '--mode': (['CC', 'RC', 'R'], ['', 'cc', 'C', 'DEFAULT', 'all']), '--magic_mode': (['CC', 'RC', 'R'], ['', 'cc', 'C', 'rcc']),
        '--magic_short': (['none', 'resistor', 'voltage'], ['', 'None', 'res']), '--magic_merge': (['none', 'conservative', 'aggressive'], ['', 'NONE', 'merge']),
        '--nosuchoption': ([], ['1']), '--2.5': ([], ['1'])}


@scratch
def option_body(case, w):
    opt, val, good, engine, how = case
    argv = [] if opt == '--pdk' else ['--pdk', SKY]
    argv += [f"{opt}={val}"] if how == '=' else [opt, val]
    argv += ['--lvsdb', f"{IN}/TOP.lvsdb.gz"] if engine != 'magic' else ['--gds', f"{IN}/one.gds", '--magicrc', f"{IN}/x.magicrc"]
    argv += [ENGINES[engine]]
    if opt == '--geo_check':
        argv += ['--delaunay_amax', '5000', '--delaunay_b', '0.1']      # (fewer triangles to check)
    r, started, res = run(w, argv)
    what = f"kpex {opt} {val!r} ({engine})"
    if not good:
        refused(what, 'the value is invalid', r, started, res)
        return {'refused': 1}, (opt, 'refused')
    if opt == '--magic_mode' and val != 'CC':
        for f in RESULTS['magic']:
            if not os.path.exists(f"{w}/out/one__TOP/" + f.replace('CC', val).replace('{c}', 'TOP')):
                raise V(f"{what}: no result {f}: {r}")
        return {'obeyed': 1}, (opt, 'obeyed')
    obeyed(what, w, r, started, res, (engine,), 'lvsdb' if engine != 'magic' else 'gds', 'TOP')
    return {'obeyed': 1}, (opt, 'obeyed')


def option_cases():
    for opt, (good, bad) in OPTS.items():
        own = 'magic' if opt.startswith('--magic') else 'fastercap' if opt in FC_OPTS else '2.5D'
        for i, (val, ok) in enumerate([(v, True) for v in good] + [(v, False) for v in bad]):
            for engine in ENGINES:
                if not T and engine != own and (engine, ok) != ('2.5D', False):
                    continue
                if opt == '--pdk' and val == IHP:
                    continue        # (the database is a sky130A one)
                for how in ('=', ' ') if T or i == 0 else ('=',):
                    if how == ' ' and val.startswith('-'):
                        continue
                    yield (opt, val, ok, engine, how)


FC_OPTS = ('--threads', '--geo_check', '--auto_precond', '--k_void', '--delaunay_amax', '--delaunay_b', '--tolerance', '--d_coeff', '--mesh', '--ooc', '--diel')


@scratch
def special_body(case, w):
    argv, status = case
    r, started, res = run(w, list(argv))
    what = f"kpex {' '.join(argv)}"
    if (r.status == 0) != (status == 0) or r.status == cli.CRASH:
        raise V(f"{what}: {r}")
    if started or res or not r.out.strip():
        raise V(f"{what}: started {started}, results {res}, output {r.out[:100]!r}")
    return {'special': 1}, (status, r.status)


SPECIAL = [(('--help',), 0), (('-h',), 0), (('--version',), 0), (('-v',), 0), ((), 2), (('--2.5D',), 2), (('--pdk', SKY), 1), (('--pdk', SKY, '--2.5D'), 1),
           (('--pdk', SKY, '--2.5D', f"{IN}/TOP.lvsdb.gz"), 2), (('--pdk', SKY, '--2.5D', '--lvsdb'), 2), (('--pdk',), 2),
           (('--pdk', SKY, '--lvsdb', f"{IN}/TOP.lvsdb.gz"), 1), (('--pdk', SKY, '--2.5D=1', '--lvsdb', f"{IN}/TOP.lvsdb.gz"), 2),
           (('--version', '--pdk', SKY, '--2.5D', '--lvsdb', f"{IN}/TOP.lvsdb.gz"), 0)]

# ------------------------------------------------------------------ 3: parameters of the 2.5D engine
PB = {'met1_con': [B(0, 0, 5000, 1000), B(0, 1500, 5000, 2500), B(7000, 0, 8000, 3000)], 'met2_con': [B(300, 200, 900, 6000)], 'via1_con': [B(400, 300, 500, 400)],
      'li_con': [B(0, 3500, 9000, 3900)], 'capm': [B(10000, 0, 12000, 2000)], 'met3_cap': [B(10000, 0, 12000, 2000)], 'met3_ncap': [B(13000, 0, 14000, 2000)],
      'met1_pin_con': [B(0, 0, 200, 1000), B(0, 1500, 200, 2500)]}
PL = [('met1_con', 'x', 100, 100), ('met1_con', 'y', 100, 2000), ('met1_con', 'z', 7100, 100), ('li_con', 'l', 100, 3600), ('met3_ncap', 'm', 13100, 100)]
pylvs.make(SKY, PB, PL, cell='TOP', path=f"{IN}/param.lvsdb.gz")


@scratch
def param_body(case, w):
    mode, halo, scale, bb, style = case
    argv = ['--pdk', SKY, '--2.5D', '--lvsdb' if style else '-l', f"{IN}/param.lvsdb.gz"]
    if mode is not None:
        argv += ['--mode', mode]
    if halo is not None:
        argv += ['--halo', str(halo)]
    if scale is not None:
        argv += ['--scale', str(scale)]
    if bb is not None:
        argv += ['--blackbox', str(bb)]
    what = f"kpex {' '.join(argv[3:]).replace(IN + '/', '')}"
    r, started, res = run(w, argv)
    if r.status != 0 or started:
        raise V(f"{what}: {r}")
    rows = cli.read_csv(f"{w}/out/param__TOP/TOP_k25d_pex_netlist.csv")
    l = kdb.LayoutVsSchematic()
    l.read(f"{IN}/param.lvsdb.gz")
    here = os.getcwd()
    os.chdir(w)
    try:
        s = rcx.extract(l, SKY, mode=mode or 'CC', scale=scale is not False, halo=halo, blackbox=bool(bb)).summarize()
    finally:
        os.chdir(here)
        if halo is not None:
            rcx.tech.cache_clear()
    m = mode or 'CC'
    exp = sorted(round(v, 3) for v in s.capacitances.values()), sorted(round(v, 3) for v in s.resistances.values())
    got = sorted(x[3] for x in rows if x[3] is not None), sorted(x[4] for x in rows if x[4] is not None)
    if exp != got:
        raise V(f"{what}: the netlist has values {got}, with these parameters there are {exp}")
    if bool(got[0]) != ('C' in m) or bool(got[1]) != ('R' in m):
        raise V(f"{what}: {len(got[0])} capacitances, {len(got[1])} resistances in mode {m}")
    return {'parameters': 1}, str(got)


def param_cases():
    for mode in (None, 'CC', 'RC', 'R'):
        for halo in (None, 0.1, 1, 2.5, 8, 100):
            for scale in (None, True, False):
                for bb in (None, True, False):
                    for style in (0, 1):
                        yield (mode, halo, scale, bb, style)


chk.explore(SPECIAL, special_body, stage='special', chunk=2)
chk.explore(option_cases(), option_body, stage='options', chunk=2)
chk.explore(param_cases(), param_body, stage='2.5D parameters', chunk=8)
chk.explore(input_cases(), input_body, stage='inputs', chunk=8)
chk.finish()
