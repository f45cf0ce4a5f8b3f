"""C13: external tools (field solvers, Magic, KLayout LVS) - command lines, logs and every outcome of the fault alphabet."""
import csv
import itertools
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C13', level='fault_enumeration',
                 rule='all option combinations of the alphabet; all outcomes of every tool x earlier results x selected engines; '
                      'outcomes are distinct command lines / (fault, exit status) pairs')
T = chk.thorough
M = rcx.mods()
kdb = M.kdb
cli.preload()
B = kdb.Box
V = core.Violation
SKY, IHP = pylvs.SKY, pylvs.IHP
ROOT = chk.wdir + '/c13'
os.makedirs(ROOT)

TOOL = '''#!/bin/bash
# stand-in for an external tool: records its command line, prints the log, and ends as told
N=$(basename "$0")
printf '%s\\n' "$@" > "$KV_REC/$N.argv"
pwd > "$KV_REC/$N.cwd"
echo "$OMP_NUM_THREADS" > "$KV_REC/$N.omp"
echo x >> "$KV_REC/$N.calls"
eval MODE=\\$KV_MODE_$N
for a in "$@"; do case "$a" in report=*) REP="${a#report=}";; -l*) cp "${a#-l}" "$KV_REC/$N.lst" ;; *.lst) cp "$a" "$KV_REC/$N.lst";; *.tcl) cp "$a" "$KV_REC/$N.tcl"; D=$(dirname "$a");; esac; done
P="$KV_PLAY/$N.$MODE"
[ -f "$P.out" ] && while IFS= read -r l || [ -n "$l" ]; do case "$l" in E:*) echo "${l#E:}" >&2;; *) echo "$l";; esac; done < "$P.out"
[ -f "$P.raw" ] && cat "$P.raw"
[ -f "$P.db" ] && cp "$P.db" "$REP"
[ -d "$P.d" ] && cp "$P.d"/* "$D"/
[ -f "$P.sig" ] && kill -$(cat "$P.sig") $$
[ -f "$P.rc" ] && exit $(cat "$P.rc")
exit 0
'''
TOOLS = ('fastercap', 'fastcap', 'magic', 'klayout')
for t in TOOLS:
    with open(f"{ROOT}/{t}", 'w') as f:
        f.write(TOOL)
    os.chmod(f"{ROOT}/{t}", 0o755)
with open(f"{ROOT}/noexec", 'w') as f:
    f.write('#!/bin/sh\nexit 0\n')
os.chmod(f"{ROOT}/noexec", 0o644)
PLAY = f"{ROOT}/play"
os.makedirs(PLAY)
NETS = ('VSUBS', 'x', 'y')



def fc_log(k, cut=None, noise=()):
    rows = [[(3 + k + i if i == j else -(1 + k + i + j) / 8) for j in range(3)] for i in range(3)]
    ls = ['Running FasterCap version 6.0.7', *noise, 'Capacitance matrix is:', 'Dimension 3 x 3'] + \
         [f"g{i + 1}_{n}  {' '.join('%ge-9' % v for v in rows[i])} " for i, n in enumerate(NETS)]
    ls = ls[:cut] if cut else ls + ['', 'Total time: 0.1s']
    return ls, [[v * 1e-15 for v in r] for r in rows]


def fp_log(k, cut=None, noise=()):
    rows = [[(3 + k + i if i == j else -(1 + k + i + j) / 8) for j in range(3)] for i in range(3)]
    ls = ['Running fastcap 2.0 (18Sept92)', *noise, '', 'CAPACITANCE MATRIX, picofarads', '                       1          2          3 '] + \
         [f"{n}%GROUP{i + 1} {i + 1}".ljust(20) + ''.join(' %10s' % ('%g' % v) for v in rows[i]) for i, n in enumerate(NETS)]
    ls = ls[:cut] if cut else ls + ['', 'TOTAL TIME: 0.01']
    return ls, [[v * 1e-18 for v in r] for r in rows]


EXT = {'TOP.ext': 'timestamp 0\nversion 8.3\ntech sky130A\nscale 1000 1 0.5\nport "x" 1 0 0 100 100 m1\nnode "x" 10 20 0 0 m1 0 0\n',
       'TOP.pex.spice': '* NGSPICE file\n.subckt TOP x y\nC0 x y %d.5fF\n.ends\n'}


def outcome(tool, name, out=None, raw=None, db=None, files=None, rc=None, sig=None):
    p = f"{PLAY}/{tool}.{name}"
    for suf, v in (('out', out), ('rc', rc), ('sig', sig)):
        if v is not None:
            with open(f"{p}.{suf}", 'w') as f:
                f.write(str(v))
    if raw is not None:
        with open(f"{p}.raw", 'wb') as f:
            f.write(raw)
    if db:
        shutil.copyfile(db, f"{p}.db")
    if files is not None:
        os.makedirs(f"{p}.d")
        for n, t in files.items():
            with open(f"{p}.d/{n}", 'w') as f:
                f.write(t)


A = pylvs.LEVELS[SKY][1][0]
BOXES = {A: [B(0, 0, 5000, 1000), B(0, 1500, 5000, 2500)]}
LABELS = [(A, 'x', 100, 100), (A, 'y', 100, 2000)]
DB = f"{ROOT}/t.lvsdb.gz"
pylvs.make(SKY, BOXES, LABELS, cell='TOP', path=DB)
GDS = f"{ROOT}/t.gds"
ly = kdb.Layout()
ly.create_cell('TOP').shapes(ly.layer(67, 20)).insert(B(0, 0, 1000, 1000))
ly.write(GDS)
RCFILE = f"{ROOT}/x.magicrc"
with open(RCFILE, 'w') as f:
    f.write('# rc\n')

BIG = ('big',)      # (more output than fits into a pipe)
NOISE = ['', '', 'E:warning on stderr', 'x' * 5000, '  indented\ttab', 'µ-Ω non-ascii', 'E:second', 'a line']
EXPECT = {}       # (tool, outcome) -> (success?, console text, result)
for tool, log in (('fastercap', fc_log), ('fastcap', fp_log)):
    for k in (0, 1):
        ls, rows = log(k, noise=NOISE if k else ())
        text = '\n'.join(ls) + '\n'
        outcome(tool, f"ok{k}", out=text)
        EXPECT[tool, f"ok{k}"] = (True, re.sub('(?m)^E:', '', text), rows)
    ls, rows = log(0, noise=['y' * 99 + str(i) for i in range(3000)])
    outcome(tool, 'big', raw=('\n'.join(ls) + '\n').encode())
    EXPECT[tool, 'big'] = (True, '\n'.join(ls) + '\n', rows)
    full = EXPECT[tool, 'ok0'][1]
    for name, kw in [('fail', dict(out=full, rc=1)), ('fail255', dict(out=full, rc=255)), ('fail0', dict(rc=3)), ('silent', {}),
                     ('abrt', dict(out=full, sig=6)), ('kill', dict(out=full, sig=9)), ('segv', dict(out=full, sig=11)), ('term', dict(sig=15))]:
        outcome(tool, name, **kw)
        EXPECT[tool, name] = (False, kw.get('out', ''), None)
    ls, _ = log(0)
    n = len(log(0)[0]) - 2
    for c in range(1, n):
        outcome(tool, f"cut{c}", out='\n'.join(ls[:c]) + '\n')
        EXPECT[tool, f"cut{c}"] = (False, '\n'.join(ls[:c]) + '\n', None)
    t = '\n'.join(ls[:n])
    for c in (1, 7, 20):
        outcome(tool, f"torn{c}", raw=t[:-c].encode())
        EXPECT[tool, f"torn{c}"] = (False, t[:-c], None)
    outcome(tool, 'unterminated', raw=(t + '\n\nend').encode())
    EXPECT[tool, 'unterminated'] = (True, t + '\n\nend', log(0)[1])
for k in (0, 1):
    fs = {n: (x % k if '%d' in x else x) for n, x in EXT.items()}
    outcome('magic', f"ok{k}", out='Magic 8.3\n\nE:problem\n  \n\nprocessing', files=fs)
    EXPECT['magic', f"ok{k}"] = (True, 'Magic 8.3\n\nproblem\n  \n\nprocessing\n', fs['TOP.pex.spice'])
for tool, fs, db in (('magic', fs, None), ('klayout', None, DB)):
    outcome(tool, 'big', raw=b''.join(b'z%098d\n' % i for i in range(3000)) + b'end', files=fs, db=db)
    EXPECT[tool, 'big'] = (True, ''.join('z%098d\n' % i for i in range(3000)) + 'end', fs and fs['TOP.pex.spice'])
fs = {n: (x % 0 if '%d' in x else x) for n, x in EXT.items()}
for name, kw in [('fail', dict(rc=1, files=fs)), ('fail0', dict(rc=2)), ('silent', {}), ('kill', dict(sig=9, files=fs)), ('segv', dict(sig=11, files=fs)),
                 ('noext', dict(files={'TOP.pex.spice': fs['TOP.pex.spice']})), ('nospice', dict(files={'TOP.ext': fs['TOP.ext']}))]:
    outcome('magic', name, out='Magic\n', **kw)
    EXPECT['magic', name] = (False, 'Magic\n', None)
outcome('klayout', 'ok0', out='lvs\n\nE:warn\n\n\nok', db=DB)
EXPECT['klayout', 'ok0'] = (True, 'lvs\n\nwarn\n\n\nok\n', None)
outcome('klayout', 'mismatch', out='lvs\nERROR : Netlists don\'t match\n', db=DB, rc=1)
EXPECT['klayout', 'mismatch'] = (True, 'lvs\nERROR : Netlists don\'t match\n', None)
for name, kw in [('fail', dict(rc=1)), ('silent', {}), ('kill', dict(sig=9)), ('killdb', dict(sig=9, db=DB))]:
    outcome('klayout', name, out='lvs\n', **kw)
    EXPECT['klayout', name] = (False, 'lvs\n', None)
LOGS = {'fastercap': 'TOP_FasterCap_Output.txt', 'fastcap': 'TOP_FastCap2_Output.txt', 'magic': 'magic_{mode}/TOP_MAGIC_{mode}_Output.txt',
        'klayout': 'TOP_lvs.log'}
ENV = {'fastercap': 'KPEX_FASTERCAP_EXE', 'fastcap': 'KPEX_FASTCAP_EXE', 'magic': 'KPEX_MAGIC_EXE', 'klayout': 'KPEX_KLAYOUT_EXE'}
MISSING = {'missing': '/nonexistent/tool', 'noexec': f"{ROOT}/noexec", 'dir': ROOT}


def late():
    """schedule: the tool has ended before anything of its output is read"""
    import subprocess
    real = subprocess.Popen

    class Late(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            os.waitid(os.P_PID, self.pid, os.WEXITED | os.WNOWAIT)
    subprocess.Popen = Late


class Run:
    def __init__(self, argv, modes, cwd='.', env=None, out='out', pre=None):
        self.cwd = os.path.abspath(cwd)
        self.rec = os.path.join(self.cwd, 'rec')
        shutil.rmtree(self.rec, ignore_errors=True)
        os.makedirs(self.rec)
        e = {'KV_REC': self.rec, 'KV_PLAY': PLAY, 'OMP_NUM_THREADS': None}
        for t in TOOLS:
            m = modes.get(t, 'unexpected')
            e[ENV[t]] = MISSING.get(m, f"{ROOT}/{t}")
            e[f"KV_MODE_{t}"] = m
        e.update(env or {})
        self.argv = argv
        self.r = cli.kpex([*argv, '--out_dir', out], self.cwd, e, pre)
        self.out = os.path.join(self.cwd, out, 't__TOP')

    @property
    def ok(self):
        return self.r.status == 0

    def read(self, tool, what):
        p = f"{self.rec}/{tool}.{what}"
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return f.read()

    def args(self, tool):
        t = self.read(tool, 'argv')
        return None if t is None else t.split('\n')[:-1]

    def file(self, name):
        p = os.path.join(self.out, name)
        if not os.path.exists(p):
            return None
        with open(p, encoding='utf-8') as f:
            return f.read()


def raw_matrix(run, tool):
    t = run.file(f"TOP_{'FasterCap' if tool == 'fastercap' else 'FastCap2'}_Result_Matrix_Raw.csv")
    return None if t is None else [[float(x) for x in l] for l in list(csv.reader(t.split('\n')[:-1], delimiter=';'))[1:]]


def check_tool(run, tool, mode, magic_mode='CC'):
    """the log and the results of a tool that was started"""
    good, text, res = EXPECT[tool, mode]
    log = run.file(LOGS[tool].format(mode=magic_mode))
    if (run.read(tool, 'calls') or '').count('x') != 1:
        raise V(f"{tool} was started {(run.read(tool, 'calls') or '').count('x')} times")
    if log != text:
        raise V(f"{tool} ({mode}): the log file is {log!r}, the tool printed {text!r}")
    if not run.ok or not good:
        return
    if tool in ('fastercap', 'fastcap'):
        m = raw_matrix(run, tool)
        if m is None or len(m) != len(res) or not all(core.close(a, b, 1e-9, 1e-30) for x, y in zip(m, res) for a, b in zip(x, y)):
            raise V(f"{tool}: result matrix {m}, the tool printed {res}")
    elif tool == 'magic':
        if run.file(f"magic_{magic_mode}/TOP.pex.spice") != res:
            raise V('the netlist is not the one Magic wrote')


# ------------------------------------------------------------------ stage 1: FasterCap / FastCap2 command lines
def flags(args, prefixes):
    """single-letter options with attached values"""
    d = {}
    for a in args:
        for p in sorted(prefixes, key=len, reverse=True):
            if a.startswith(p):
                if p in d:
                    raise V(f"option {p} twice in {args}")
                d[p] = a[len(p):]
                break
        else:
            raise V(f"unexpected argument {a} in {args}")
    return d


def lst_ok(run, tool, arg, cwd):
    p = os.path.join(cwd, arg)
    if not os.path.isfile(p):
        raise V(f"{tool}: the list file {arg} does not exist in {cwd}")
    want = os.path.join(run.out, 'FasterCap_Input_Files')
    if os.path.realpath(os.path.dirname(p)) != os.path.realpath(want):
        raise V(f"{tool}: list file {p}, the input files were generated in {want}")
    with open(p) as f:
        t = f.read()
    if t != run.read(tool, 'lst'):
        raise V('list file changed after the tool was started')
    for l in t.split('\n'):
        if l[:2] in ('C ', 'D ') and not os.path.isfile(os.path.join(os.path.dirname(p), l.split()[1])):
            raise V(f"{tool}: geometry file of line {l!r} missing")


def argv_body(case):
    opts, rel = dict(case[0]), case[1]
    shutil.rmtree('out', ignore_errors=True)
    argv = ['--pdk', SKY, '--lvsdb', DB, '--fastercap', '--fastcap', '--log_level', 'error', '--diel', 'none']
    for k, v in opts.items():
        if v is True:
            argv.append(k)
        elif v is not None:
            argv += [k, str(v)]
    run = Run(argv, {'fastercap': 'ok0', 'fastcap': 'ok0'}, out='out' if rel else os.path.abspath('out'))
    if not rel:
        run.out = os.path.abspath('out/t__TOP')
    if not run.ok:
        raise V(f"{argv}: {run.r}")
    check_tool(run, 'fastercap', 'ok0')
    check_tool(run, 'fastcap', 'ok0')
    a = run.args('fastercap')
    cwd = run.read('fastercap', 'cwd').strip()
    d = flags(a[:-1], ('-b', '-i', '-v', '-a', '-d', '-m', '-f', '-ap', '-g', '-pj'))
    want = {'-a': opts.get('--tolerance', 0.05), '-d': opts.get('--d_coeff', 0.5), '-m': opts.get('--mesh', 0.5), '-f': opts.get('--ooc', 2)}
    for k, v in want.items():
        if k not in d or float(d[k]) != v:
            raise V(f"FasterCap {k} is {d.get(k)}, requested {v}: {a}")
    ap = opts.get('--auto_precond', True)
    for k, v in {'-ap': ap in (True, 'true', '1', 'yes'), '-g': bool(opts.get('--galerkin')), '-pj': bool(opts.get('--jacobi')), '-b': True}.items():
        if (k in d) != v or d.get(k, '') != '':
            raise V(f"FasterCap {k}: {k in d}, requested {v}: {a}")
    lst_ok(run, 'fastercap', a[-1], cwd)
    th = run.read('fastercap', 'omp').strip()
    if '--threads' in opts and th != str(opts['--threads']):
        raise V(f"OMP_NUM_THREADS is {th}, requested {opts['--threads']}")
    if int(th) < 1:
        raise V(f"OMP_NUM_THREADS is {th}")
    a = run.args('fastcap')
    d = flags(a, ('-o', '-d', '-p', '-t', '-l'))
    if set(d) < {'-o', '-p', '-t', '-l'} or float(d['-o']) != 2 or '-d' in d or float(d['-p']) != 1 or float(d['-t']) != 0.01:
        raise V(f"FastCap2 options {a}")
    lst_ok(run, 'fastcap', d['-l'], run.read('fastcap', 'cwd').strip())
    return {'command_lines': 2}, tuple(run.args('fastercap')[:-1])


def argvs():
    dims = [('--tolerance', (None, 0.01, 1)), ('--d_coeff', (None, 0.25)), ('--mesh', (None, 1.5)), ('--ooc', (None, 0, 3)),
            ('--auto_precond', (None, 'false', 'true')), ('--galerkin', (None, True)), ('--jacobi', (None, True)), ('--threads', (None, 1, 7))]
    if T:
        for combo in itertools.product(*(v for _, v in dims)):
            yield (tuple((k, v) for (k, _), v in zip(dims, combo) if v is not None), True)
        return
    # all combinations of every pair and triple of options, others at their default, plus everything set
    seen = set()
    for sub in itertools.combinations(dims, 3):
        for combo in itertools.product(*(v for _, v in sub)):
            c = tuple((k, v) for (k, _), v in zip(sub, combo) if v is not None)
            if c not in seen:
                seen.add(c)
                yield (c, len(seen) % 2 == 0)
    yield (tuple((k, v[-1]) for k, v in dims), False)


chk.explore(argvs(), argv_body, stage='options', chunk=8)


# ------------------------------------------------------------------ stage 2: Magic scripts
def tcl(text):
    """the commands of a script without control structures, as lists of words"""
    cmds, cur, i, n = [], [], 0, len(text)
    word = None

    def endw():
        nonlocal word
        if word is not None:
            cur.append(word)
            word = None

    def endc():
        nonlocal cur
        endw()
        if cur:
            cmds.append(cur)
        cur = []
    while i < n:
        c = text[i]
        if word is None and not cur and c == '#':
            while i < n and text[i] != '\n':
                i += 1
            continue
        if c in '\n;':
            endc()
        elif c in ' \t':
            endw()
        elif word is None and c == '{':
            d, j = 1, i + 1
            while d:
                if j >= n:
                    raise V(f"unbalanced brace in the Magic script: {text[i:i + 80]!r}")
                if text[j] == '\\':
                    j += 1
                elif text[j] == '{':
                    d += 1
                elif text[j] == '}':
                    d -= 1
                j += 1
            word = text[i + 1:j - 1]
            i = j
            if i < n and text[i] not in ' \t\n;':
                raise V(f"extra characters after close-brace: {text[i - 10:i + 10]!r}")
            continue
        elif word is None and c == '"':
            j = i + 1
            w = ''
            while text[j] != '"':
                if text[j] == '\\':
                    j += 1
                elif text[j] in '$[':
                    raise V(f"Tcl substitution in {text[i:i + 60]!r}")
                w += text[j]
                j += 1
            word = w
            i = j + 1
            continue
        elif c in '$[':
            raise V(f"Tcl would substitute {text[max(0, i - 20):i + 20]!r}")
        elif c == '\\':
            i += 1
            word = (word or '') + text[i]
        else:
            word = (word or '') + c
        i += 1
    endc()
    return cmds


def magic_run(script):
    """executes the script on a model of Magic; -> what the netlist was made of"""
    st = {'extract': {}, 'ext2spice': {}, 'cells': {}, 'loaded': None, 'extresist': {}}
    res = None
    for c in tcl(script):
        w = c[0]
        if w == 'gds':
            if c[1] != 'read':
                raise V(f"{c}")
            st['gds'] = c[2]
        elif w == 'load':
            st['loaded'] = c[1]
        elif w == 'flatten':
            st['cells'][c[1]] = ('flat', st['loaded'])
        elif w == 'cellname':
            if c[1] == 'delete':
                st['cells'][c[2]] = None
                if st['loaded'] == c[2]:
                    raise V('the loaded cell is deleted')
            elif c[1] == 'rename':
                st['cells'][c[3]] = st['cells'].pop(c[2])
                if st['loaded'] == c[2]:
                    st['loaded'] = c[3]
        elif w == 'extract':
            if c[1] == 'all':
                st['extracted'] = (st['loaded'], st['cells'].get(st['loaded'], ('hier', st['loaded'])), st['gds'], dict(st['extract']))
            elif c[1] in ('do', 'no'):
                st['extract'][c[2]] = c[1] == 'do'
            else:
                st['extract'][c[1]] = c[2]
        elif w == 'extresist':
            if c[1] == 'all':
                if 'sim' not in st:
                    raise V('extresist before ext2sim')
                st['resist'] = dict(st['extresist'])
            else:
                st['extresist'][c[1]] = c[2]
        elif w == 'ext2sim':
            if len(c) == 1:
                if 'extracted' not in st:
                    raise V('ext2sim before extract all')
                st['sim'] = True
        elif w == 'ext2spice':
            if c[1].startswith('-'):
                o = dict(zip(c[1::2], c[2::2]))
                if 'extracted' not in st:
                    raise V('ext2spice before extract all')
                res = dict(extracted=st['extracted'], opts=dict(st['ext2spice']), path=o['-p'], out=o['-o'], resist=st.get('resist'))
            else:
                st['ext2spice'][' '.join(c[1:-1])] = c[-1]
        elif w == 'quit':
            break
        elif w not in ('crashbackups', 'drc', 'select'):
            raise V(f"unknown command {c}")
    if res is None:
        raise V('the script writes no netlist')
    return res


CELLNAMES = ('TOP', 'top$1', 'a b', 'n[0]', 'x{1')
MAGICDIRS = ('w', 'my dir', 'd$x', 'e[1]')


def magic_body(case):
    mode, opts, cell, wd = case
    opts = dict(opts)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    g = f"{wd}/t.gds"
    l2 = kdb.Layout()
    l2.create_cell(cell).shapes(l2.layer(67, 20)).insert(B(0, 0, 1000, 1000))
    l2.write(g)
    l2 = kdb.Layout()
    l2.read(g)
    cell = l2.top_cell().name        # (GDS does not have all characters)
    argv = ['--pdk', SKY, '--gds', g, '--magic', '--magicrc', RCFILE, '--log_level', 'error']
    if mode:
        argv += ['--magic_mode', mode]
    mode = mode or 'CC'
    for k, v in opts.items():
        argv += [k, str(v)]
    run = Run(argv, {'magic': 'ok0'}, out=f"{wd}/out")
    rd = os.path.join(os.path.abspath(f"{wd}/out"), f"t__{cell}", f"magic_{mode}")
    s = run.read('magic', 'tcl')
    if s is None:
        raise V(f"Magic was not started: {run.r}")
    if cell == 'TOP' and not run.ok:
        raise V(f"{argv}: {run.r}")
    a = run.args('magic')
    if '-dnull' not in a or '-noconsole' not in a or '-rcfile' not in a or a[a.index('-rcfile') + 1] != RCFILE or not a[-1].endswith('.tcl') \
            or len(a) != 5 or os.path.dirname(os.path.abspath(a[-1])) != rd:
        raise V(f"Magic command line {a}")
    try:
        r = magic_run(s)
    except (KeyError, IndexError) as e:
        raise V(f"malformed Magic script ({e!r}):\n{s}")
    ex, how, gds, eo = r['extracted']
    if ex != cell or how != ('flat', cell):
        raise V(f"Magic extracts cell {ex!r} ({how}), requested the flattened cell {cell!r}\n{s}")
    if gds != os.path.abspath(g):
        raise V(f"Magic reads {gds!r}, requested {os.path.abspath(g)!r}")
    halo = opts.get('--magic_halo')
    if ('halo' in eo) != (halo is not None) or halo is not None and int(eo['halo']) != round(float(halo) * 200):
        raise V(f"extract halo {eo.get('halo')}, requested {halo} um")
    if eo.get('path') != rd or r['path'] != rd or r['out'] != f"{rd}/{cell}.pex.spice":
        raise V(f"Magic paths {eo.get('path')}, {r['path']}, {r['out']}; requested {rd}")
    want = {'resistance': mode in ('R', 'RC'), 'capacitance': mode != 'R', 'coupling': mode != 'R'}
    got = {'resistance': eo.get('resistance', False), 'capacitance': eo.get('capacitance', True), 'coupling': eo.get('coupling', True)}
    if want != got:
        raise V(f"mode {mode}: Magic extracts {got}")
    o = r['opts']
    if o.get('short') != opts.get('--magic_short', 'none') or o.get('merge') != opts.get('--magic_merge', 'none'):
        raise V(f"short/merge {o}, requested {opts}")
    if mode != 'R' and float(o.get('cthresh', 'nan')) != float(opts.get('--magic_cthresh', 0.01)):
        raise V(f"cthresh {o.get('cthresh')}, requested {opts.get('--magic_cthresh', 0.01)}")
    if mode != 'CC':
        if float(o.get('rthresh', 'nan')) != float(opts.get('--magic_rthresh', 100)):
            raise V(f"rthresh {o.get('rthresh')}, requested {opts.get('--magic_rthresh', 100)}")
        if r['resist'] is None or float(r['resist'].get('tolerance', 'nan')) != float(opts.get('--magic_tolerance', 1)):
            raise V(f"extresist {r['resist']}, requested tolerance {opts.get('--magic_tolerance', 1)}")
        if o.get('extresist') != 'on':
            raise V('extresist is not used by ext2spice')
    elif r['resist'] is not None or o.get('extresist') == 'on':
        raise V('resistances extracted in mode CC')
    if o.get('format') != 'ngspice' or o.get('subcircuits top') != 'on':
        raise V(f"ext2spice {o}")
    shutil.rmtree(wd)
    return {'scripts': 1}, (mode, tuple(sorted(opts.items())))


def magics():
    dims = [('--magic_halo', (None, 0, 5, 0.333)), ('--magic_short', (None, 'none', 'resistor', 'voltage')),
            ('--magic_merge', (None, 'conservative', 'aggressive')), ('--magic_cthresh', (None, 0, 0.25)), ('--magic_rthresh', (None, 0, 42)),
            ('--magic_tolerance', (None, 2.5))]
    for mode in (None, 'CC', 'RC', 'R'):
        for combo in itertools.product(*(v if T else v[:3] for _, v in dims)):
            c = tuple((k, v) for (k, _), v in zip(dims, combo) if v is not None)
            if T or len(c) <= 2 or len(c) == len(dims):
                yield (mode, c, 'TOP', 'w')
    for mode in ('CC', 'RC', 'R'):
        for cell in CELLNAMES:
            for wd in MAGICDIRS:
                yield (mode, (), cell, wd)


chk.explore(magics(), magic_body, stage='magic scripts', chunk=8)


# ------------------------------------------------------------------ stage 3: LVS command line
def lvs_body(case):
    pdk, verbose, schem, wd = case
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    shutil.copyfile(GDS, f"{wd}/t.gds")
    argv = ['--pdk', pdk, '--gds', f"{wd}/t.gds", '--2.5D', '--mode', 'CC', '--log_level', 'error']
    if verbose is not None:
        argv += ['--lvs-verbose', verbose]
    if schem:
        with open(f"{wd}/s.spice", 'w') as f:
            f.write('.subckt TOP\n.ends\n')
        argv += ['--schematic', f"{wd}/s.spice"]
    run = Run(argv, {'klayout': 'ok0'}, out=f"{wd}/out")
    a = run.args('klayout')
    if a is None:
        raise V(f"LVS was not started: {run.r}")
    rd, script, k, rest = {}, None, 0, []
    while k < len(a):
        if a[k] == '-rd':
            n, v = a[k + 1].split('=', 1)
            if n in rd:
                raise V(f"-rd {n} twice")
            rd[n] = v
            k += 2
        elif a[k] == '-r':
            script = a[k + 1]
            k += 2
        else:
            rest.append(a[k])
            k += 1
    if rest != ['-b'] or script is None or not os.path.isfile(script) or (pdk == SKY) != ('sky130' in os.path.basename(script)):
        raise V(f"LVS command line {a}")
    w = os.path.abspath(wd)
    want = {'input': f"{w}/t.gds", 'run_mode': 'deep', 'spice_net_names': 'true', 'scale': 'false', 'verbose': 'true' if verbose in ('true', '1') else 'false',
            'schematic_simplify': 'false', 'net_only': 'false', 'top_lvl_pins': 'true', 'combine': 'false', 'combine_devices': 'false', 'purge': 'false',
            'purge_nets': 'false', 'no_simplify': 'true'}
    if schem:
        want['schematic'] = f"{w}/s.spice"
    for n, v in want.items():
        if rd.get(n) != v:
            raise V(f"LVS {n}={rd.get(n)}, requested {v}")
    if 'report' not in rd or 'schematic' not in rd:
        raise V(f"LVS command line {a}")
    if not rd['report'].startswith(f"{w}/out/") or not rd['schematic'].startswith(w + '/'):
        raise V(f"LVS report {rd['report']}, schematic {rd['schematic']}")
    if not schem:
        with open(rd['schematic']) as f:
            if not f.read().lower().startswith('.subckt top '):
                raise V('dummy schematic')
    if pdk == SKY:
        if not run.ok:
            raise V(f"{run.r}")
        check_tool(run, 'klayout', 'ok0')
    shutil.rmtree(wd)
    return {'command_lines': 1}, case[:3]


chk.explore([(p, v, s, w) for p in (SKY, IHP) for v in (None, 'true', 'false', '1', '0') for s in (False, True) for w in ('w', 'my dir')],
            lvs_body, stage='LVS options', chunk=2)


# ------------------------------------------------------------------ stage 4: faults of one tool
def base_argv(tools, extra=()):
    argv = ['--pdk', SKY, '--log_level', 'error', '--diel', 'none']
    if 'klayout' in tools or 'magic' in tools:
        argv += ['--gds', GDS, '--cache-lvs', 'false']
    else:
        argv += ['--lvsdb', DB]
    for t in tools:
        if t == 'magic':
            argv += ['--magic', '--magicrc', RCFILE]
        elif t != 'klayout':
            argv += ['--' + t]
    return argv + list(extra)


def fault_body(case):
    tool, mode, earlier, extra, sched = case
    shutil.rmtree('out', ignore_errors=True)
    ex = list(extra)
    if tool == 'klayout' and not ex:
        ex = ['--2.5D', '--mode', 'CC']
    modes = {}
    if earlier:
        r0 = Run(base_argv((tool,), ex), {tool: earlier, **({'klayout': 'ok0'} if tool == 'magic' and ex else {})})
        if not r0.ok:
            raise V(f"{tool}: {r0.r}")
    run = Run(base_argv((tool,), ex), {tool: mode, **({'klayout': 'ok0'} if tool == 'magic' and ex else {})}, pre=late if sched else None)
    good = mode not in MISSING and EXPECT[tool, mode][0]
    if run.ok != good:
        raise V(f"{tool} outcome {mode!r} (earlier results: {earlier}): exit status {run.r.status}\n{run.r.out[-600:]}")
    if mode not in MISSING:
        check_tool(run, tool, mode)
    elif run.read(tool, 'calls'):
        raise V('?')
    return {'fault_runs': 1}, (tool, mode, bool(earlier), run.r.status != 0)


def faults():
    for tool in TOOLS:
        ms = [m for t, m in EXPECT if t == tool] + list(MISSING)
        for m in ms:
            for earlier in (None, 'ok0') if tool == 'klayout' else (None, 'ok0', 'ok1'):
                for extra in ((), ('--2.5D', '--mode', 'CC')):
                    for sched in (0, 1)[:2 - (m in BIG or m in MISSING)]:
                        yield (tool, m, earlier, extra, sched)


chk.explore(faults(), fault_body, stage='faults', chunk=4)


# ------------------------------------------------------------------ stage 5: all tools in one run
def joint_body(case):
    modes = dict(zip(TOOLS, case))
    shutil.rmtree('out', ignore_errors=True)
    sel = [t for t in TOOLS if modes[t] is not None]
    if 'klayout' in sel and len(set(sel) & {'fastercap', 'fastcap'}) == 0:
        extra = ['--2.5D', '--mode', 'CC']
    else:
        extra = []
    argv = base_argv(sel, extra)
    run = Run(argv, {t: modes[t] for t in sel})
    good = all(m not in MISSING and EXPECT[t, m][0] for t, m in modes.items() if m is not None)
    if run.ok != good:
        raise V(f"tool outcomes {modes}: exit status {run.r.status}\n{run.r.out[-600:]}")
    for t in sel:
        if modes[t] not in MISSING and (run.read(t, 'calls') or good):
            check_tool(run, t, modes[t])
    return {'fault_runs': 1}, (case, run.ok)


JM = {'fastercap': (None, 'ok1', 'fail', 'kill', 'silent', 'missing'), 'fastcap': (None, 'ok1', 'fail', 'kill', 'silent', 'missing'),
      'magic': (None, 'ok1', 'fail', 'silent', 'missing'), 'klayout': ('ok0', 'mismatch', 'fail', 'kill', 'missing')}
chk.explore([c for c in itertools.product(*((JM[t] if T else JM[t][:4] + JM[t][5:]) for t in TOOLS)) if any(c[:2]) or True], joint_body, stage='joint faults', chunk=8)
chk.finish()
