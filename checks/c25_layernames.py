"""C25: lvs_layer_names.py names exactly the layers that an LVS log reports, each once."""
import itertools
import os
import re
import runpy
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli

chk = core.Check('C25', rule='every log of up to three (thorough: four) lines over an alphabet of report lines, near misses and other lines; every number of layers up '
                 'to 45 (thorough: 130) in three orders; every log level; output to a file, an existing file and stdout; faulty arguments')
T = chk.thorough
V = core.Violation
ROOT = chk.wdir + '/c25'
os.makedirs(ROOT)
core.need_repo() if hasattr(core, 'need_repo') else None
import klayout_pex.log                        # noqa (imported once, children are forked)
import klayout_pex.util.argparse_helpers      # noqa
core.quiet()
PRE = '2026-01-02 10:20:30 +0100: Memory Usage (12345K) : '
# line -> the layer it reports (None: no report)
LINES = {
    f"{PRE}activ_drw has 12 polygons": 'activ_drw', f"{PRE}M1 has 0 polygons": 'M1', f"{PRE}activ_drw has 3 polygons": 'activ_drw', f"{PRE}_x9 has 1 polygons": '_x9',
    f"{PRE}metal1_n_cap has 1234567 polygons": 'metal1_n_cap', f"{PRE}Starting SG13G2 LVS": None, f"{PRE}a b has 3 polygons": None, f"{PRE}x has many polygons": None,
    f"{PRE}x has 3 polygons left": None, 'y has 3 polygons': None, '': None, '   ': None, f"{PRE}z has 3 edges": None, '"input" in: x.lvs:12': None,
    f"{PRE}has 3 polygons": None, f"{PRE}µ_ü: 3 polygons": None, 'file : C:/x : w has 2 polygons': 'w',
}
KEYS = list(LINES)


def run(argv, d):
    def fn():
        sys.argv = ['lvs_layer_names', *argv]
        runpy.run_path(os.path.join(core.REPO, 'lvs_layer_names.py'), run_name='__main__')
    return cli.child(fn, d, {'COLUMNS': '200'}, f"{ROOT}/o{os.getpid()}")


def names_of(script, what):
    """the words of the %w( … ) list; the rest of the script must name every one of them"""
    code = [l for l in script.split('\n') if not l.lstrip().startswith('#')]
    m = re.fullmatch(r'\s*if self\.respond_to\?\(:name\)\s+%w\(([^()]*)\)\.each do \|(\w+)\|\s+name\(eval\(\2\), \2\)\s+end\s+end\s*', '\n'.join(code))
    if not m:
        raise V(f"{what}: unexpected script {script!r}")
    return m[1].split()


def check(lines, want, what, nl='\n', end=True, out='new', level=None):
    d = f"{ROOT}/w{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text = nl.join(lines) + (nl if end and lines else '')
    with open(f"{d}/lvs.log", 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    argv = ['lvs.log']
    if out != 'stdout':
        argv += ['-o', 'names.lvs']
    if out == 'old':
        with open(f"{d}/names.lvs", 'w') as f:
            f.write('# old\n' * 500)
    if level:
        argv += ['--log_level', level]
    r = run(argv, d)
    if r.status != 0:
        raise V(f"{what}: {r}")
    if out == 'stdout':
        i = r.out.index('# Script') if '# Script' in r.out else 0
        script = r.out[i:]
    else:
        with open(f"{d}/names.lvs", encoding='utf-8') as f:
            script = f.read()
    have = names_of(script, what)
    if have != sorted(want):
        raise V(f"{what}: names {have[:12]}…, expected {sorted(want)[:12]}…" if len(have) + len(want) > 24 else f"{what}: names {have}, expected {sorted(want)}")
    with open(f"{d}/lvs.log", encoding='utf-8', newline='') as f:
        if f.read() != text:
            raise V(f"{what}: the log has changed")
    shutil.rmtree(d)
    return len(want)


def log_body(case):
    idx, nl, end = case
    lines = [KEYS[i] for i in idx]
    n = check(lines, {LINES[l] for l in lines} - {None}, f"log {lines} (line ends {nl!r}, last one {end})", nl, end)
    return {'logs': 1}, (n, nl, end)


def logs():
    for n in range(0, 4 if T else 3):
        for idx in itertools.product(range(len(KEYS)), repeat=n):
            yield (idx, '\n', True)
            if n < 3 and idx:
                yield (idx, '\r\n', True)
                yield (idx, '\n', False)
    if not T:
        for idx in itertools.product(range(0, len(KEYS), 2), repeat=3):
            yield (idx, '\n', True)


def count_body(case):
    n, order, out, level = case
    ns = [f"l{(i * 37) % 1009}_{'abcXYZ'[i % 6]}" for i in range(n)]
    ls = {'up': sorted(ns), 'down': sorted(ns, reverse=True), 'mixed': ns, 'twice': ns + ns[::-1]}[order]
    check([f"{PRE}{x} has {i} polygons" for i, x in enumerate(ls)], set(ns), f"{n} layers, {order}, output {out}, log level {level}", out=out, level=level)
    return {'logs': 1}, (n, order, out, level)


def counts():
    for n in range(0, 131 if T else 46):
        for order in ('up', 'down', 'mixed', 'twice'):
            yield (n, order, ('new', 'old', 'stdout')[n % 3], None)
    for out in ('new', 'old', 'stdout'):
        for level in (None, 'ALL', 'DEBUG', 'SUBPROCESS', 'VERBOSE', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'info', 'error', 'debug'):
            for n in (0, 1, 10, 11):
                yield (n, 'mixed', out, level)


def error_body(case):
    argv, log = case
    d = f"{ROOT}/e{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(f"{d}/lvs.log", 'w') as f:
        f.write(log)
    r = run(list(argv), d)
    if r.status in (0, cli.CRASH):
        raise V(f"arguments {argv}: {r}")
    shutil.rmtree(d)
    return {'errors': 1}, argv


chk.explore([((), ''), (('none.log',), ''), (('lvs.log', '-o', 'no/dir/x'), ''), (('lvs.log', '--log_level', 'xyz'), ''), (('lvs.log', 'lvs.log'), ''), (('lvs.log', '--nope'), '')], error_body,
            stage='errors', chunk=1)
chk.explore(logs(), log_body, stage='logs', chunk=32)
chk.explore(counts(), count_body, stage='numbers of layers', chunk=16)
chk.finish()
