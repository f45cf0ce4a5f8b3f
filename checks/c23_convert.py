"""C23: conversion of layouts between the PDKs maps every shape to the counterparts of its layer and loses nothing."""
import itertools
import os
import runpy
import shutil
import sys
import xml.etree.ElementTree as ET
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, rcx

chk = core.Check('C23', rule='every layer of both layer property files; every pair (thorough: triple) of mapped layers; every cell tree of the alphabet x shape x '
                 'database unit x file format; every unambiguous layout without anchor; round trips; outcomes are distinct (technology, layers) results')
T = chk.thorough
V = core.Violation
kdb = rcx.mods().kdb
core.quiet()
ROOT = chk.wdir + '/c23'
os.makedirs(ROOT)
SKY, IHP = 'sky130A', 'ihp_sg13g2'
LYP = {SKY: f"{core.REPO}/pdk/sky130A/libs.tech/kpex/sky130A.lyp", IHP: f"{core.REPO}/pdk/ihp_sg13g2/libs.tech/kpex/sg13g2.lyp"}
import klayout_pex.util.argparse_helpers     # noqa (imported once, children are forked)
import klayout_pex.log                       # noqa
try:
    import numpy                             # noqa
except ImportError:
    pass


def layers_of(pdk):
    d = {}
    for p in ET.parse(LYP[pdk]).getroot().findall('./properties'):
        n = p.findtext('name').split()[0]
        l, t = p.findtext('source').split('@')[0].split('/')
        d.setdefault(n, []).append((int(l), int(t)))
    return d


L = {p: layers_of(p) for p in LYP}
# counterparts: a metal of one PDK is the metal on the same level of the other one; labels become pins and texts
PAIRS = [('tap.drawing', 'Activ.drawing'), ('diff.drawing', 'Activ.drawing'), ('nwell.drawing', 'NWell.drawing'), ('pwell.drawing', 'PWell.drawing'),
         ('nwell.label', 'NWell.pin'), ('nwell.label', 'NWell.label'), ('pwell.label', 'PWell.pin'), ('pwell.label', 'PWell.label'), ('pwell.pin', 'PWell.pin'),
         ('nsdm.drawing', 'nSD.drawing'), ('psdm.drawing', 'pSD.drawing'), ('poly.drawing', 'GatPoly.drawing'), ('licon1.drawing', 'Cont.drawing'),
         ('capacitor.drawing', 'Recog.mom'), ('capm2.drawing', 'MIM.drawing'), ('prBoundary.boundary', 'prBoundary.boundary')]
for a_, b_ in zip(('li1', 'met1', 'met2', 'met3', 'met4', 'met5'), ('Metal1', 'Metal2', 'Metal3', 'Metal4', 'Metal5', 'TopMetal1')):
    PAIRS += [(f"{a_}.{x}", f"{b_}.{y}") for x, y in (('drawing', 'drawing'), ('pin', 'pin'), ('label', 'pin'), ('label', 'text'))]
PAIRS += [(f"{a_}.drawing", f"{b_}.drawing") for a_, b_ in zip(('mcon', 'via', 'via2', 'via3', 'via4'), ('Via1', 'Via2', 'Via3', 'Via4', 'TopVia1'))]
for a_, b_ in PAIRS:
    if len(L[SKY].get(a_, ())) != 1 or len(L[IHP].get(b_, ())) != 1:
        raise V(f"layer property files: {a_} is {L[SKY].get(a_)}, {b_} is {L[IHP].get(b_)}")
TO = {SKY: {}, IHP: {}}
for a_, b_ in PAIRS:
    TO[SKY].setdefault(L[SKY][a_][0], []).append(L[IHP][b_][0])
    TO[IHP].setdefault(L[IHP][b_][0], []).append(L[SKY][a_][0])
# layers which are not judged: names that stand for several layers ('boundary')
ALL = {p: {g for v in L[p].values() for g in v} for p in L}
VAGUE = {g for p in L for n, v in L[p].items() if n == 'boundary' or len(v) > 1 for g in v} | {L[p]['prBoundary.boundary'][0] for p in L}
ONLY = {SKY: ALL[SKY] - ALL[IHP], IHP: ALL[IHP] - ALL[SKY]}
ANCHOR = {SKY: [L[SKY][f"{n}.drawing"][0] for n in ('met1', 'met2', 'met3', 'met4')], IHP: [L[IHP][f"{n}.drawing"][0] for n in ('Metal1', 'Metal2', 'Metal3', 'Metal4')]}
for p_ in ANCHOR:
    ANCHOR[p_] = [g for g in ANCHOR[p_] if g in ONLY[p_]] + sorted(g for g in ONLY[p_] if g not in VAGUE and g not in TO[p_])[:4]


def guess(gs):
    r = [len(set(gs) & ALL[p]) for p in (SKY, IHP)]
    return None if r[0] == r[1] else (SKY, IHP)[r[0] < r[1]]


def convert(src, dst, cwd):
    def fn():
        sys.argv = ['convert_layout_pdk', '-i', src, '-o', dst]
        runpy.run_path(os.path.join(core.REPO, 'convert_layout_pdk.py'), run_name='__main__')
    return cli.child(fn, cwd, {'COLUMNS': '200'}, f"{ROOT}/o{os.getpid()}")


def one(s, t):
    """shape -> comparable form in the coordinates of the top cell"""
    pr = tuple(sorted((str(k), str(v)) for k, v in s.properties().items())) if s.has_prop_id() else ()
    if s.is_text():
        return ('text', str(s.text.transformed(t)), pr)
    return ('poly', str(s.polygon.transformed(t)), pr)


def content(ly):
    """top cell -> GDS pair -> multiset of shapes, all levels"""
    res = {}
    for c in ly.top_cells():
        d = {}
        for li in ly.layer_indexes():
            i = ly.get_info(li)
            k = (i.layer, i.datatype)
            it = c.begin_shapes_rec(li)
            while not it.at_end():
                d.setdefault(k, Counter())[one(it.shape(), it.trans())] += 1
                it.next()
        res[c.name] = d
    return res


def expected(d, pdk):
    res = {}
    for c, ls in d.items():
        r = {}
        for k, shapes in ls.items():
            for g in TO[pdk].get(k) or [(1000 + k[0], k[1])]:
                r.setdefault(g, Counter()).update(shapes)
        res[c] = r
    return res


def compare(have, want, what, once):
    have = {c: l for c, l in have.items() if l}
    want = {c: l for c, l in want.items() if l}
    if set(have) != set(want):
        raise V(f"{what}: top cells {sorted(have)}, expected {sorted(want)}")
    for c in want:
        if set(have[c]) != set(want[c]):
            raise V(f"{what}: cell {c} has the layers {sorted(have[c])}, expected {sorted(want[c])}")
        for k in want[c]:
            h, w = have[c][k], want[c][k]
            if once:        # (the OASIS writer of KLayout writes equal shapes once, OASIS has no text orientation)
                h, w = (Counter({(x[0], x[1].split(',')[0] + x[1].split(' ')[-1] if x[0] == 'text' else x[1], x[2]) for x in y}) for y in (have[c][k], want[c][k]))
            if h != w:
                raise V(f"{what}: cell {c}, layer {k}: missing {list((w - h).items())[:4]}, too many {list((h - w).items())[:4]}")


def check(ly, ext, what, pdk=None, twice=False):
    d = f"{ROOT}/w{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = f"{d}/a.{ext}"
    ly.write(src)
    ly = kdb.Layout()
    ly.read(src)           # (what the file format keeps)
    before = open(src, 'rb').read()
    c0 = content(ly)
    gs = {(i.layer, i.datatype) for i in (ly.get_info(x) for x in ly.layer_indexes())}
    p = pdk or guess(gs)
    for i in range(2 if twice else 1):
        dst = f"{d}/b{i}.{ext}"
        r = convert(src, dst, d)
        if r.status != 0 or not os.path.isfile(dst):
            raise V(f"{what}: {r}")
        out = kdb.Layout()
        out.read(dst)
        if abs(out.dbu - ly.dbu) > 1e-12:
            raise V(f"{what}: database unit {out.dbu}, was {ly.dbu}")
        if len(list(out.each_cell())) != len(out.top_cells()):
            raise V(f"{what}: the result is not flat: cells {sorted(c.name for c in out.each_cell())}")
        c1 = content(out)
        want = expected(c0, p)
        compare(c1, want, f"{what}, conversion {i + 1} from {p}", ext == 'oas')
        c0, p, src = c1, guess({g for l in c1.values() for g in l}), dst
        if p is None:
            break
    if open(f"{d}/a.{ext}", 'rb').read() != before:
        raise V(f"{what}: the input file has changed")
    shutil.rmtree(d)
    return len(gs)


def fill(ly, cell, gs, k=0):
    for i, g in enumerate(gs):
        s = cell.shapes(ly.layer(*g))
        s.insert(kdb.Box(100 * i, k, 100 * i + 50 + k, 70 + i))
        s.insert(kdb.Text(f"t{i}", kdb.Trans(i % 4, False, 100 * i, 5)))


def flat_body(case):
    pdk, gs, anchored = case
    ly = kdb.Layout()
    fill(ly, ly.create_cell('TOP'), [*gs, *(g for g in ANCHOR[pdk] if g not in gs)] if anchored else gs)
    n = check(ly, 'gds', f"{pdk} layout with layers {gs}{' and others' if anchored else ''}", pdk)
    return {'layers': n}, (pdk, tuple(sorted(tuple(TO[pdk].get(g, ((0, 0),))) for g in gs)), anchored)


def flats():
    for p in (SKY, IHP):
        other = IHP if p == SKY else SKY
        names = sorted((ALL[p] | set(TO[p]) | {(99, 1), (1099, 1), (0, 0), (3000, 7)} | set(sorted(ONLY[other])[:20])) - VAGUE)
        for g in names:
            yield (p, (g,), True)
            if g in ONLY[p]:
                yield (p, (g,), False)
        mapped = sorted(TO[p]) + [g for g in ((99, 1), (1099, 1)) if g not in ALL[p]]
        mapped = [g for g in mapped if g not in VAGUE]
        for a, b in itertools.permutations(mapped, 2):
            yield (p, (a, b), True)
        if T:
            for t in itertools.combinations(mapped, 3):
                yield (p, t, True)
        yield (p, tuple(mapped), True)
        yield (p, tuple(names), True) if guess([*names, *ANCHOR[p]]) == p else (p, tuple(mapped[::-1]), True)


SHAPES = {'box': lambda: kdb.Box(0, 0, 300, 100), 'poly': lambda: kdb.Polygon([kdb.Point(0, 0), kdb.Point(0, 200), kdb.Point(100, 200), kdb.Point(200, 100), kdb.Point(200, 0)]),
          'hole': lambda: kdb.Region(kdb.Box(0, 0, 300, 300)).__sub__(kdb.Region(kdb.Box(100, 100, 200, 200))), 'path': lambda: kdb.Path([kdb.Point(0, 0), kdb.Point(500, 0), kdb.Point(500, 300)], 60, 30, 0),
          'text': lambda: kdb.Text('VDD', kdb.Trans(1, True, 10, 20)), 'same': lambda: kdb.Box(0, 0, 300, 100), 'prop': lambda: kdb.BoxWithProperties(kdb.Box(0, 0, 300, 100), {1: 'net'})}


def tree_body(case):
    pdk, tree, shape, trans, dbu, ext = case
    ly = kdb.Layout()
    ly.dbu = dbu
    top = ly.create_cell('TOP')
    sub = ly.create_cell('SUB$1')
    leaf = ly.create_cell('leaf')
    t = kdb.Trans(*trans)
    gs = [g for g in sorted(TO[pdk]) if g not in VAGUE][::3] + ANCHOR[pdk]

    def put(c, off):
        for g in gs:
            s = c.shapes(ly.layer(*g))
            x = SHAPES[shape]()
            s.insert(x)
            if shape == 'same':
                s.insert(x)
            s.insert(kdb.Box(off, 0, off + 10 + g[1], 10))
    if tree == 'flat':
        put(top, 0)
        for c in (sub, leaf):
            ly.delete_cell(c.cell_index())
    elif tree == 'sub':
        put(sub, 0)
        top.insert(kdb.CellInstArray(sub.cell_index(), t))
        ly.delete_cell(leaf.cell_index())
    elif tree == 'deep':
        put(leaf, 0)
        put(top, 40)
        sub.insert(kdb.CellInstArray(leaf.cell_index(), kdb.Trans(1, False, 50, 0)))
        sub.insert(kdb.CellInstArray(leaf.cell_index(), kdb.Trans(0, True, 0, 70)))
        top.insert(kdb.CellInstArray(sub.cell_index(), t))
        top.insert(kdb.CellInstArray(leaf.cell_index(), kdb.Trans(2, False, 5, 5)))
    elif tree == 'array':
        put(sub, 0)
        top.insert(kdb.CellInstArray(sub.cell_index(), t, kdb.Vector(1000, 0), kdb.Vector(0, 700), 2, 3))
        ly.delete_cell(leaf.cell_index())
    elif tree == 'tops':
        put(leaf, 0)
        put(sub, 10)
        for c in (top, sub):
            c.insert(kdb.CellInstArray(leaf.cell_index(), t))
    elif tree == 'odd angle':
        put(sub, 0)
        top.insert(kdb.CellInstArray(sub.cell_index(), kdb.ICplxTrans(2.0, 90.0, True, 30, 40)))
        ly.delete_cell(leaf.cell_index())
    check(ly, ext, f"{pdk}, {tree}, {shape}, {t}, dbu {dbu}, {ext}", pdk, twice=shape != 'prop')
    return {'trees': 1}, (pdk, tree, shape)


def trees():
    for p in (SKY, IHP):
        for tree in ('flat', 'sub', 'deep', 'array', 'tops', 'odd angle'):
            for shape in SHAPES:
                for trans in ((0, False, 0, 0), (1, True, -300, 50)) if not T else [(r, m, x, 50) for r in range(4) for m in (False, True) for x in (0, -300)]:
                    for dbu, ext in ((0.001, 'gds'), (0.005, 'oas'), (0.001, 'gds.gz')) if not T else itertools.product((0.001, 0.005, 0.0005), ('gds', 'oas', 'gds.gz')):
                        if tree == 'flat' and trans[0]:
                            continue
                        yield (p, tree, shape, trans, dbu, ext)


def chain_body(case):
    pdk, depth, kind, ext = case
    ly = kdb.Layout()
    gs = [g for g in sorted(TO[pdk]) if g not in VAGUE][::5] + ANCHOR[pdk]
    cs = [ly.create_cell('TOP' if i == 0 else f"C{i}") for i in range(depth)]
    for i, c in enumerate(cs):
        if kind != 'leaf only' or i + 1 == depth:
            fill(ly, c, gs, i)
        if i + 1 < depth:
            n = cs[i + 1].cell_index()
            c.insert(kdb.CellInstArray(n, kdb.Trans(i % 4, i % 3 == 1, 10 * i, 1000)))
            if kind == 'two ways' and i + 2 < depth:
                c.insert(kdb.CellInstArray(cs[i + 2].cell_index(), kdb.Trans(1, False, 7, 13 * i)))
    check(ly, ext, f"{pdk}, {depth} levels, {kind}, {ext}", pdk)
    return {'chains': 1}, (pdk, depth, kind)


def many_body(case):
    pdk, g, n, k, depth = case
    ly = kdb.Layout()
    top = ly.create_cell('TOP')
    sub = ly.create_cell('SUB')
    fill(ly, top, ANCHOR[pdk][:k])
    c = top
    if depth:
        c = sub
        for i in range(3):
            top.insert(kdb.CellInstArray(sub.cell_index(), kdb.Trans(0, False, 0, 5000 * i)))
    else:
        ly.delete_cell(sub.cell_index())
    for i in range(n):
        c.shapes(ly.layer(*g)).insert(kdb.Box(100 * i, 0, 100 * i + 30, 20 + i))
    check(ly, 'gds', f"{pdk} layout, {n} shapes on {g}, {k} layers of the technology", pdk)
    return {'multiplicities': 1}, (pdk, n, k, depth)


def many():
    for p in (SKY, IHP):
        other = IHP if p == SKY else SKY
        for g in sorted(ONLY[other] - VAGUE)[:None if T else 12] + sorted(set(TO[p]) - VAGUE)[:None if T else 6]:
            for n in (1, 3, 30):
                for k in (2, 3, 4):
                    for depth in (0, 1):
                        yield (p, g, n, k, depth)


def error_body(case):
    d = f"{ROOT}/e{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ly = kdb.Layout()
    fill(ly, ly.create_cell('TOP'), ANCHOR[SKY])
    ly.write(f"{d}/ok.gds")
    with open(f"{d}/cut.gds", 'wb') as f:
        f.write(open(f"{d}/ok.gds", 'rb').read()[:-60])
    with open(f"{d}/text.gds", 'w') as f:
        f.write('hello\n')
    open(f"{d}/empty.gds", 'w').close()
    os.makedirs(f"{d}/dir.gds")
    src, dst, old = case
    if old and dst == 'out.gds':
        with open(f"{d}/{dst}", 'w') as f:
            f.write('old')
    r = convert(src, dst, d)
    good = src == 'ok.gds' and dst == 'out.gds'
    if good != (r.status == 0):
        raise V(f"conversion of {src} to {dst}: {r}")
    if not good and os.path.isfile(f"{d}/{dst}") and not old:
        raise V(f"conversion of {src} to {dst} left a result: {r}")
    shutil.rmtree(d)
    return {'errors': 1}, (src, dst)


chk.explore(itertools.product(('ok.gds', 'cut.gds', 'text.gds', 'empty.gds', 'dir.gds', 'none.gds', ''), ('out.gds', 'nodir/out.gds', 'dir.gds'), (False, True)), error_body,
            stage='errors', chunk=1)
chk.explore(flats(), flat_body, stage='layers', chunk=16)
chk.explore(itertools.product((SKY, IHP), range(1, 13 if not T else 33), ('all', 'leaf only', 'two ways') if not T else ('all', 'leaf only'), ('gds', 'oas')), chain_body, stage='cell chains', chunk=8)
chk.explore(many(), many_body, stage='multiplicities', chunk=16)
chk.explore(trees(), tree_body, stage='cell trees', chunk=8)
chk.finish()
