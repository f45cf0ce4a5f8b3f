"""C21: scripts written for Magic mean what was asked for in a real Tcl interpreter; Magic's result files are read back
completely and the report shows every record at its place."""
import itertools
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pathlib import Path
from kv import core, cli, pylvs, rcx, rdbx

chk = core.Check('C21', rule='every special character x place x mode through a real tclsh; every record kind x field value, every short sequence of records '
                 'of the .ext/.res.ext grammar, every set of cells and side files; every coordinate of a range x database unit in the report; '
                 'outcomes are distinct (record kinds, modes)')
T = chk.thorough
V = core.Violation
kdb = rcx.mods().kdb
import klayout.rdb as krdb
from klayout_pex.magic import magic_runner as MR
from klayout_pex.magic import magic_ext_file_parser as MP
from klayout_pex.magic import magic_log_analyzer as MA
cli.preload()
ROOT = chk.wdir + '/c21'
os.makedirs(ROOT)
UNIT = 0.005            # um, one unit of Magic's files ("scale 1000 1 0.5")

# --------------------------------------------------------------------------------------------- scripts in a real Tcl
# (a safe interpreter: no file, process or network access; every command which is not Tcl's own is recorded)
DRIVER = r'''
fconfigure stdout -encoding utf-8 -translation lf
proc hex {s} { binary scan [encoding convertto utf-8 $s] H* h; return $h }
proc rec {args} { set l {}; foreach a $args { lappend l "x[hex $a]" }; puts [join $l " "] }
foreach p [lrange $argv 0 end] {
  set f [open $p]; fconfigure $f -encoding utf-8; set s [read $f]; close $f
  set i [interp create -safe]
  foreach c {load quit unknown source exec open close extract ext2spice ext2sim extresist flatten cellname select gds drc crashbackups exit} { interp alias $i $c {} rec $c }
  interp alias $i unknown {} rec
  puts "BEGIN"
  if {[catch {interp eval $i $s} msg]} { puts "ERROR x[hex $msg]" }
  puts "END"
  interp delete $i
}
'''
with open(f"{ROOT}/driver.tcl", 'w') as f_:
    f_.write(DRIVER)
TCLSH = shutil.which('tclsh') or shutil.which('tclsh8.6')


def tcl(paths):
    """paths of scripts -> list of command lists, as a Tcl interpreter sees them"""
    r = subprocess.run([TCLSH, f"{ROOT}/driver.tcl", *paths], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       env={'PATH': os.environ['PATH'], 'LC_ALL': 'C.UTF-8'})
    if r.returncode:
        raise core.HarnessError(r.stderr.decode()[-500:])
    res, cur = [], None

    def w(x):
        return bytes.fromhex(x[1:]).decode()
    for ln in r.stdout.decode().splitlines():
        if ln == 'BEGIN':
            cur = []
        elif ln == 'END':
            res.append(cur)
        elif ln.startswith('ERROR '):
            cur.append(['ERROR', w(ln[6:])])
        else:
            cur.append([w(x) for x in ln.split(' ')])
    return res


def magic_model(cmds, gds):
    """state of Magic after the commands: cells with what they are copies of"""
    cells, cur, st, out = {}, None, {}, None
    for c in cmds:
        w = c[0]
        if w == 'ERROR':
            raise V(f"Tcl error {c[1]!r}")
        if w == 'gds':
            if c[1] != 'read' or len(c) != 3:
                raise V(f"{c}")
            st['gds'] = c[2]
        elif w == 'load':
            if len(c) != 2:
                raise V(f"load with {len(c) - 1} arguments: {c}")
            cur = c[1]
            cells.setdefault(cur, ('read', cur))
        elif w == 'flatten':
            if len(c) != 2:
                raise V(f"{c}")
            cells[c[1]] = ('flat', cells[cur])
        elif w == 'cellname':
            if c[1] == 'delete':
                cells.pop(c[2], None)
            elif c[1] == 'rename':
                cells[c[3]] = cells.pop(c[2])
                if cur == c[2]:
                    cur = c[3]
            else:
                raise V(f"{c}")
        elif w == 'extract':
            if c[1] == 'path':
                st['path'] = c[2:]
            elif c[1] == 'all':
                st['extracted'] = (cur, cells.get(cur))
            elif c[1] in ('do', 'no', 'halo'):
                st.setdefault('how', []).append(tuple(c[1:]))
            else:
                raise V(f"{c}")
        elif w == 'ext2spice' and len(c) > 1 and c[1].startswith('-'):
            out = dict(zip(c[1::2], c[2::2]))
            st['n'] = len(c)
        elif w in ('ext2spice', 'ext2sim', 'extresist', 'crashbackups', 'drc', 'select', 'quit'):
            pass
        else:
            raise V(f"unknown Magic command {c}")
        if w == 'quit':
            break
    return st, out


MODES = list(MR.MagicPEXMode)
CHARS = [chr(i) for i in range(32, 127) if chr(i) != '/'] + ['\u00b5', '\u00e9', '\u2126', '\t']
FORMS = ('{}ab', 'a{}b', 'ab{}', '{0}a{0}', 'x{}y{}z') if T else ('{}ab', 'a{}b', 'ab{}')
PAIRS = [a + b for a in '$[]{}"\\; #\n'[:10] for b in '$[]{}"\\; #a0'] if not T else [a + b for a in '$[]{}"\\; #~*?\'' for b in '$[]{}"\\; #~*?\'a0(']


def names():
    for c in CHARS:
        for f in FORMS:
            yield f.replace('{0}', c).replace('{}', c)
    for p in PAIRS:
        yield p
        yield 'a' + p + 'b'


def script_body(case):
    block = case
    ps, want = [], []
    d = f"{ROOT}/s{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    n = 0
    for name in block:
        for mode in MODES:
            for where in ('cell', 'gds', 'dir'):
                cell = name if where == 'cell' else 'TOP'
                gds = f"/some/{name}/t.gds" if where == 'dir' else f"/some/{name}.gds" if where == 'gds' else '/some/t.gds'
                run = f"/out/{name}/magic" if where == 'dir' else '/out/magic'
                if os.path.abspath(gds) != gds or os.path.abspath(run) != run:
                    continue          # ('.' and '..' are not names)
                p = f"{d}/{n}.tcl"
                n += 1
                MR.prepare_magic_script(gds_path=gds, cell_name=cell, run_dir_path=run, script_path=p, output_netlist_path=f"{run}/{cell}.pex.spice",
                                        pex_mode=mode, c_threshold=0.01, r_threshold=100.0, tolerance=1.0, halo=None,
                                        short_mode=MR.MagicShortMode.DEFAULT, merge_mode=MR.MagicMergeMode.DEFAULT)
                ps.append(p)
                want.append((cell, gds, run, mode, where))
    for k, (cmds, (cell, gds, run, mode, where)) in enumerate(zip(tcl(ps), want)):
        what = f"mode {mode}, name {block!r}: "
        try:
            st, out = magic_model(cmds, gds)
        except V as e:
            raise V(f"cell {cell!r}, layout {gds!r}, directory {run!r}, mode {mode}: {e}")
        except (IndexError, KeyError) as e:
            raise V(f"cell {cell!r}, layout {gds!r}, directory {run!r}, mode {mode}: malformed command ({e!r})")
        got = (st.get('gds'), st.get('extracted'), st.get('path'), (out or {}).get('-p'), (out or {}).get('-o'), st.get('n'))
        exp = (gds, (cell, ('flat', ('read', cell))), [run], run, f"{run}/{cell}.pex.spice", 5)
        if got != exp:
            raise V(f"mode {mode}: a Tcl interpreter reads (layout, extracted cell, paths …) {got}, requested {exp}")
    shutil.rmtree(d)
    return {'scripts': len(ps)}, tuple(sorted({m for *_, m, _ in want}))


NAMES = list(dict.fromkeys(names()))
chk.explore([tuple(NAMES[i:i + 12]) for i in range(0, len(NAMES), 12)], script_body, stage='scripts', chunk=2)


# --------------------------------------------------------------------------------------------- result files
NOISE = ['timestamp 0', 'version 8.3', 'tech sky130A', 'style ngspice()', 'scale 1000 1 0.5', 'resistclasses 4400000 2200000 950000', '',
         'equiv "A" "B"', 'cap "A" "B" 12.5', 'subcap "A" -5', 'parameters x l=l w=w', 'use x x_0 1 0 0 0 1 0', 'attr a 0 0 0 0', 'merge "A" "B" -3.5',
         '# comment', 'killnode "A"']
NETS = ['A', 'a[0]', 'x.y', 'a/b', 'w_n20_n30#', 'm1_50_100#', '$5', 'A B', "B'", '\u00b5x', '-', 'port']
XY = [0, 1, -1, 5, -37, 12345, -200000, 2000000]


def port(net='A', nr=1, xy=(-10, 20, 30, 44), layer='metal1'):
    return f'port "{net}" {nr} {xy[0]} {xy[1]} {xy[2]} {xy[3]} {layer}', ('port', net, *xy, layer)


def node(net='A', r='0', c='0', x=5, y=-7, layer='metal1', kind='node', rest='0 0 0 0 300 40'):
    return f'{kind} "{net}" {r} {c} {x} {y} {layer} {rest}', ('node', net, int(r), float(c), x, y, layer)


def device(t='msubckt', model='sky130_fd_pr__nfet_01v8', xy=(1, 2, 3, 4), rest='l=30 w=84 "VSUBS" "G" 60 0 "D" 84 0 "S" 84 0'):
    return f'device {t} {model} {xy[0]} {xy[1]} {xy[2]} {xy[3]} {rest}', ('device', t, model, *xy)


def rnode(net='A', r='0', c='0', x=5, y=-7):
    return f'rnode "{net}" {r} {c} {x} {y} 0', ('rnode', net, int(r), float(c), x, y)


def resist(a='A', b='B', v='12.5'):
    return f'resist "{a}" "{b}" {v}', ('resist', a, b, float(v))


DEVTYPES = ('mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt')
DEVTYPES = tuple(t for t in DEVTYPES if t != 'asymmetric')
CAPS = ['0', '5', '1234567', '0.5', '12.345', '1.5e-05', '2e+06', '-3', '-0.25']
LAYERS = ['metal1', 'm1', 'locali', 'space', 'pwell', 'met5', 'mvndiff', 'xp']


def quads():
    yield from ((a, 0, b, 10) for a, b in itertools.product(XY, repeat=2) if a <= b)
    yield from ((0, a, 10, b) for a, b in itertools.product(XY, repeat=2) if a <= b)


def main_records():
    for n in NETS:
        yield port(n)
        yield node(n)
        yield node(n, kind='substrate')
        for nr in (1, 0, 17):
            yield port(n, nr)
    for q in quads():
        yield port(xy=q)
        yield device(xy=q)
    for x, y in itertools.product(XY, repeat=2):
        yield node(x=x, y=y)
        yield node(x=x, y=y, kind='substrate')
    for lyr in LAYERS:
        yield port(layer=lyr)
        yield node(layer=lyr)
    for r, c in itertools.product(('0', '1', '48237', '123456789'), CAPS):
        yield node(r=r, c=c)
        yield node(r=r, c=c, kind='substrate')
    for rest in ('0 0', '0 0 0 0 1 2 3 4 5 6', '12 34 ' * 20):
        yield node(rest=rest)
    for t in DEVTYPES:
        yield device(t)
        yield device(t, model='None')
        yield device(t, rest='"a" "b" 1 2')
        yield device(t, rest='l=30 w=60 "p" "q" 1 2 "r[0]" 3 4 x=1')


def res_records():
    for n in NETS:
        yield rnode(n)
        yield resist(n, 'B')
        yield resist('B', n)
    for x, y in itertools.product(XY, repeat=2):
        yield rnode(x=x, y=y)
    for r, c in itertools.product(('0', '1', '48237'), CAPS):
        yield rnode(r=r, c=c)
    for v in ('0', '1', '12.5', '0.001', '1e-05', '2.5e+06', '123456', '1.75E3', '.5', '5.'):
        yield resist(v=v)


def kinds(data):
    e = data.ext_data
    got = [('port', p.net, p.x_bot, p.y_bot, p.x_top, p.y_top, p.layer) for p in e.ports]
    got += [('node', n.net, n.int_r, float(n.fin_c), n.x_bot, n.y_bot, n.layer) for n in e.nodes]
    got += [('device', str(d.device_type), d.model, d.x_bot, d.y_bot, d.x_top, d.y_top) for d in e.devices]
    if data.res_ext_data is not None:
        got += [('rnode', n.name, n.int_r, float(n.fin_c), n.x_bot, n.y_bot) for n in data.res_ext_data.rnodes]
        got += [('resist', r.node1, r.node2, float(r.value_ohm)) for r in data.res_ext_data.resistors]
    return got


ORDER = ('port', 'node', 'device', 'rnode', 'resist')


def ordered(recs):
    return [r for k in ORDER for r in recs if r[0] == k]


def write(d, files):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, lines in files.items():
        with open(f"{d}/{n}", 'w', encoding='utf-8') as f:
            f.write(''.join(ln + '\n' for ln in lines))


def same(d, want, what):
    """want: {cell: (records, with resistances)}"""
    run = MP.parse_magic_pex_run(Path(d))
    if set(run.cells) != set(want):
        raise V(f"{what}: cells {sorted(run.cells)} were read, the files have {sorted(want)}")
    for c, (recs, hasres) in want.items():
        if (run.cells[c].res_ext_data is not None) != hasres:
            raise V(f"{what}: cell {c}: resistances {'found' if not hasres else 'not found'}")
        g, w = kinds(run.cells[c]), ordered(recs)
        if g != w:
            miss = [x for x in w if x not in g]
            extra = [x for x in g if x not in w]
            raise V(f"{what}: cell {c}: records of the file lost: {miss[:3]}, records which are not in the file: {extra[:3]}, {len(g)} read, {len(w)} written")
    return run


def ext_body(case):
    pre, main, res, post = case
    d = f"{ROOT}/e{os.getpid()}"
    files = {'c.ext': [NOISE[i] for i in pre] + [m[0] for m in main] + [NOISE[i] for i in post]}
    if res is not None:
        files['c.res.ext'] = [NOISE[i] for i in pre[:6]] + [m[0] for m in res]
    write(d, files)
    same(d, {'c': ([m[1] for m in main] + [m[1] for m in res or ()], res is not None)}, f"{files}")
    shutil.rmtree(d)
    return {'records': len(main) + len(res or ())}, tuple(sorted({m[1][0] for m in list(main) + list(res or ())}))


def singles():
    for m in main_records():
        yield ((0, 1, 4), (m,), None, (8,))
    for m in res_records():
        yield ((0, 1, 4), (), (m,), ())


chk.explore(singles(), ext_body, stage='records', chunk=32)

BASE = [port(), port('B', 2, (100, 0, 140, 20), 'm2'), node(), node('B', c='0.5'), node('VSUBS', kind='substrate', layer='space'), device(),
        device('devres', 'None', (7, 8, 9, 10), '"A" "B" 1 2')]
RBASE = [rnode(), rnode('B', x=400), rnode('A.n0', c='1.5'), resist(), resist('A', 'A.n0', '3e-2'), resist()]


def sequences():
    for n in range(0, 5 if T else 4):
        for s in itertools.product(BASE, repeat=n):
            yield ((0, 1, 2, 3, 4, 5), s, None, ())
    for n in range(0, 5 if T else 4):
        for s in itertools.product(RBASE, repeat=n):
            yield ((0, 1), (BASE[0], BASE[2]), s, ())
    for i, j in itertools.permutations(range(len(NOISE)), 2):
        yield ((i,), tuple(BASE), tuple(RBASE), (j,))
        yield ((i, j), tuple(BASE[:3]), None, (i,))
    for a, b in itertools.product(BASE, RBASE):          # records in the other kind of file belong to nothing there
        for i in range(len(NOISE)):
            yield ((i,), (a,), (b,), (i,))


chk.explore(sequences(), ext_body, stage='sequences', chunk=32)


# --------------------------------------------------------------------------------------------- run directories
CELLS = ['a', 'b', 'a.b', 'top_x', 'a-1', 'x.extra', 'res', 'a b', 'A', 'nres']
SIDE = ['a.ext~', 'a.ext.bak', 'a.pex.spice', 'a.sim', 'a.nodes', 'x.extension', 'Output.txt', 'z.res.ext.old', '.magicrc', 'ext']


def dir_body(case):
    cells, side = case
    d = f"{ROOT}/d{os.getpid()}"
    files, want = {}, {}
    for i, (c, r) in enumerate(cells):
        m = [port(f"p{i}", xy=(i, i, i + 10, i + 10)), node(f"n{i}", x=i)]
        rr = [rnode(f"r{i}", x=i), resist(f"r{i}", f"s{i}", str(i + 0.5))]
        files[f"{c}.ext"] = ['timestamp 0', *[x[0] for x in m]]
        if r:
            files[f"{c}.res.ext"] = [x[0] for x in rr]
        want[c] = ([x[1] for x in m + (rr if r else [])], r)
    for s in side:
        files[s] = [port('BAD')[0], rnode('BAD')[0]]
    write(d, files)
    if not cells:
        try:
            run = MP.parse_magic_pex_run(Path(d))
        except Exception:
            shutil.rmtree(d)
            return {'directories': 1}, 'nothing'
        raise V(f"directory with {sorted(files)}: cells {sorted(run.cells)} instead of an error (Magic wrote no result)")
    same(d, want, f"directory with {sorted(files)}")
    shutil.rmtree(d)
    return {'directories': 1}, (len(cells), sum(r for _, r in cells))


def dirs():
    for n in range(0, 4):
        for cs in itertools.combinations(CELLS, n):
            for rs in itertools.product((False, True), repeat=n):
                yield (tuple(zip(cs, rs)), ())
    for s in SIDE:
        for c in [(), (('a', False),), (('a', True), ('b', False))]:
            yield (c, (s,))
    for ss in itertools.combinations(SIDE, 2):
        yield ((('a', True), ('b', False)), ss)
        yield ((), ss)


chk.explore(dirs(), dir_body, stage='directories', chunk=16)


# --------------------------------------------------------------------------------------------- report
def um(s):
    """marker -> its box in 0.01 nm"""
    kind, _, g = s.partition(': ')
    if kind not in ('box', 'polygon'):
        raise V(f"unexpected marker {s!r}")
    pts = [kdb.Point(*q) for q in rdbx.contours(g, 1e-5)[0]]
    return kdb.Box(min(q.x for q in pts), min(q.y for q in pts), max(q.x for q in pts), max(q.y for q in pts))


def check_report(path, cells, dbu, what):
    """cells: {cell: records}; every record is shown exactly once, at its place, under a name that tells what it is"""
    db = rdbx.Rdb(path)
    if not set(cells) <= set(db.cells):
        raise V(f"{what}: cells {db.cells} in the report, Magic's results have {sorted(cells)}")
    U, S = UNIT * 1e5, dbu * 1e5
    left = []
    for p, c, vals in db.items:
        for v in vals:
            left.append((p, c, um(v)))
    n = 0

    def near(a, b):
        return abs(a - b) <= S / 2 + 0.5

    def take(cell, words, place, what2):
        for k, (p, c, b) in enumerate(left):
            if c == cell and len(p) == 3 and words(p) and place(b):
                return left.pop(k)
        raise V(f"{what}: {what2} of cell {cell} is not shown at its place; markers left: {[(x[0], str(x[2])) for x in left][:4]}")
    for cell, recs in cells.items():
        at = {}
        for r in recs:
            if r[0] == 'rnode':
                at.setdefault(r[1], []).append((r[4], r[5]))
        nres = 0

        def box(q):
            return lambda b: near(b.left, q[0] * U) and near(b.bottom, q[1] * U) and near(b.right, q[2] * U) and near(b.top, q[3] * U)

        def dot(x, y):      # a small box at or around the point
            return lambda b: (near(b.left, x * U) and near(b.bottom, y * U) or near((b.left + b.right) / 2, x * U) and near((b.bottom + b.top) / 2, y * U)) \
                and max(b.width(), b.height()) <= 30 * S
        for r in recs:
            n += 1
            if r[0] == 'port':
                take(cell, lambda p: p[1] == 'Ports' and r[1] in p[2] and r[6] in p[2], box(r[2:6]), r)
            elif r[0] == 'device':
                take(cell, lambda p: p[1] == 'Devices' and r[1] in p[2] and r[2] in p[2], box(r[3:7]), r)
            elif r[0] == 'node':
                take(cell, lambda p: p[1] == 'Nodes' and r[1] in p[2] and r[6] in p[2], dot(r[4], r[5]), r)
            elif r[0] == 'rnode':
                take(cell, lambda p: p[1] == 'Resistor Nodes' and p[2] == r[1], dot(r[4], r[5]), r)
            elif r[0] == 'resist':
                for e in (r[1], r[2]):
                    for x, y in at.get(e, ()):
                        take(cell, lambda p: p[1] == 'Resistors' and r[1] in p[2] and r[2] in p[2] and str(r[3]) in p[2], dot(x, y), (r, e))
    if left:
        raise V(f"{what}: {len(left)} markers which belong to no record: {[(x[0], x[1], str(x[2])) for x in left[:3]]}")
    return n


def report_body(case):
    cells, dbu = case
    d = f"{ROOT}/r{os.getpid()}"
    files = {}
    for c, recs in cells:
        files[f"{c}.ext"] = [m[0] for m in recs if m[1][0] in ORDER[:3]]
        if any(m[1][0] in ORDER[3:] for m in recs):
            files[f"{c}.res.ext"] = [m[0] for m in recs if m[1][0] in ORDER[3:]]
    write(d, files)
    rep = krdb.ReportDatabase('')
    a = MA.MagicLogAnalyzer(magic_pex_run=MP.parse_magic_pex_run(Path(d)), report=rep, dbu=dbu)
    a.analyze()
    out = f"{d}/report.rdb.gz"
    rep.save(out)
    n = check_report(out, {c: [m[1] for m in recs] for c, recs in cells}, dbu, f"{files}, database unit {dbu}")
    shutil.rmtree(d)
    return {'records shown': n}, tuple(sorted({m[1][0] for _, recs in cells for m in recs}))


DBUS = (0.001, 0.005, 0.0005, 0.002, 0.01)


def reports():
    lim = 4000 if T else 1000
    for dbu in DBUS:
        for s in range(-lim, lim, 25):           # every coordinate
            yield ((('c', tuple(node(f"n{x}", x=x, y=-x) for x in range(s, s + 25))),), dbu)
            yield ((('c', tuple(port(f"p{x}", xy=(x, -x, x + 1 + x % 7, -x + 31)) for x in range(s, s + 25))),), dbu)
            yield ((('c', tuple(device(model=f"d{x + 5000}", xy=(x, -x, x + 1 + x % 7, -x + 31)) for x in range(s, s + 25))),), dbu)
            yield ((('c', tuple(rnode(f"r{x}", x=-x, y=x) for x in range(s, s + 25)) + tuple(resist(f"r{x}", f"r{x + 1}", f"{abs(x)}.5") for x in range(s, s + 24))),), dbu)
        for q in quads():
            yield ((('c', (port(xy=q), device(xy=q))),), dbu)
        for n in NETS:
            yield ((('c', (port(n), node(n), rnode(n), rnode('B', x=44), resist(n, 'B'))),), dbu)
    base = BASE + RBASE
    for k in range(1, 4 if T else 3):
        for sub in itertools.product(base, repeat=k):
            yield ((('c', sub),), 0.001)
    for i, j in itertools.product(range(len(base)), repeat=2):       # cells side by side
        yield ((('a', (base[i], base[j])), ('b', (base[j],))), 0.001)
        yield ((('a', (base[i],)), ('a.b', (base[i],)), ('B', tuple(base))), 0.001)
    for c in CELLS:
        yield (((c, tuple(base)),), 0.005)


chk.explore(reports(), report_body, stage='report', chunk=16)


# --------------------------------------------------------------------------------------------- whole runs
STAND = '''#!/bin/bash
for a in "$@"; do case "$a" in *.tcl) D=$(dirname "$a");; esac; done
cp "$KV_FILES"/* "$D/"
echo "* netlist of Magic" > "$D/$KV_CELL.pex.spice"
exit 0
'''
with open(f"{ROOT}/magic", 'w') as f_:
    f_.write(STAND)
os.chmod(f"{ROOT}/magic", 0o755)
with open(f"{ROOT}/magicrc", 'w') as f_:
    f_.write('# x\n')


def run_body(case):
    mode, dbu, cell, sub, main = case
    d = f"{ROOT}/w{os.getpid()}"
    recs = [*BASE[:3], *[BASE[i] for i in sub if i < len(BASE)]]
    res = [] if mode == 'CC' else [RBASE[i] for i in sub if i < len(RBASE)] + [resist('A', 'B', '7.5')]
    files = {f"{cell}.ext": [m[0] for m in recs]}
    if mode != 'CC':
        files[f"{cell}.res.ext"] = [m[0] for m in res]
    write(f"{d}", {})
    write(f"{d}/files", files)
    want = {cell: [m[1] for m in recs + res]}
    if main:
        for o in ('', 'x.rdb.gz'):
            p = f"{d}/{o}" if o else f"{d}/files/report.rdb.gz"
            argv = ['magic_log_analyzer', '-m', f"{d}/files"] + (['-o', p] if o else [])

            def fn():
                sys.argv = argv
                MA.main()
                return 0
            r = cli.child(fn, d, {}, f"{d}/log")
            if r.status != 0 or not os.path.isfile(p):
                raise V(f"{argv}: {r}")
            check_report(p, want, 0.001, f"{argv}")
        shutil.rmtree(d)
        return {'runs': 2}, 'tool'
    ly = kdb.Layout()
    ly.dbu = dbu
    ly.create_cell(cell).shapes(ly.layer(67, 20)).insert(kdb.Box(0, 0, 1000, 1000))
    ly.write(f"{d}/t.gds")
    r = cli.kpex(['--pdk', pylvs.SKY, '--gds', f"{d}/t.gds", '--magic', '--magicrc', f"{ROOT}/magicrc", '--magic_mode', mode, '--log_level', 'error',
                  '--out_dir', f"{d}/out"], d, {'KV_FILES': f"{d}/files", 'KV_CELL': cell, 'KPEX_MAGIC_EXE': f"{ROOT}/magic"})
    if r.status != 0:
        raise V(f"{case}: {r}")
    p = f"{d}/out/t__{cell}/magic_{mode}/{cell}_MAGIC_report.rdb.gz"
    if not os.path.isfile(p):
        raise V(f"{case}: no report {p}: {r}")
    check_report(p, want, dbu, f"run {case}")
    shutil.rmtree(d)
    return {'runs': 1}, mode


def runs():
    for mode in ('CC', 'RC', 'R'):
        for dbu in (0.001, 0.005):
            for cell in ('TOP', 'a$1', 'n.m'):
                for sub in ((), (0, 3), (1, 4), (2, 5), (6, 0), tuple(range(7))):
                    yield (mode, dbu, cell, sub, False)
                    if dbu == 0.001:
                        yield (mode, dbu, cell, sub, True)


chk.explore(runs(), run_body, stage='runs', chunk=2)
chk.finish()
