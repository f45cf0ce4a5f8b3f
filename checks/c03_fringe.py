"""C03: side overlap (fringe) capacitance."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, caps, pylvs, enum25

chk = core.Check('C03', rule='bounded-exhaustive layouts of 1..4 shapes over the stage alphabets x halo x scaling; a '
                 'case is distinct by its expected fringe table and non-trivial if that is not empty')
T = chk.thorough
PDKS = (pylvs.SKY, pylvs.IHP)


def single():
    """one shape: fringe to substrate, every layer x size x scaling x halo"""
    for pdk in PDKS:
        for m in enum25.metals(pdk):
            for w, h in ((1000, 1000), (500, 8000), (3000, 2000)):
                for scale in (True, False):
                    for halo in (None, 1.0, 3.0, 50.0):
                        yield (pdk, 0.001, scale, halo, ((m, 'A', 0, 0, w, h),))


def pairs():
    """two shapes on every ordered pair of layers: distance x lateral offset x nets x scaling"""
    for pdk in PDKS:
        for a, b in itertools.combinations(enum25.metals(pdk), 2):
            for d in (-3000, -1000, 0, 500, 3000, 7000, 9000):
                for off in (0, 1500, -2500, 5000):
                    for nets, scale in (('AB', True), ('AB', False), ('AA', True)):
                        yield (pdk, 0.001, scale, None, ((a, nets[0], 0, 0, 2000, 4000),
                                                         (b, nets[1], 2000 + d, off, 4000 + d, off + 3000)))


BOX = [(0, 0, 2000, 4000), (2500, 0, 4500, 4000), (3000, 1000, 6000, 2500), (5000, 0, 6000, 4000),
       (-1000, 1000, 5000, 3000)]


def triples():
    """three shapes on every triple of layers (two may be equal): shielding by layers in between and laterally"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        idx = range(len(ms))
        for tri in itertools.combinations_with_replacement(idx, 3):
            if tri[0] == tri[1] == tri[2]:
                continue
            if not T and (tri[2] - tri[0] > 3 or (pdk == pylvs.IHP and tri[2] - tri[0] > 2)):
                continue
            for q in itertools.permutations(BOX, 3) if T else itertools.combinations(BOX, 3):
                for nets in (enum25.partitions(3) if T else (('A', 'B', 'C'), ('A', 'B', 'A'), ('A', 'A', 'B'),
                                                             ('A', 'B', 'B'))):
                    r = tuple((ms[l], n) + b for l, n, b in zip(tri, nets, q))
                    if enum25.legal(r):
                        yield (pdk, 0.001, True, None, r)


def lateral():
    """wire of layer i with neighbour (other net, same net, own polygon) on the layer and a far plate above/below"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for i, j in itertools.permutations(range(len(ms)), 2):
            if not T and abs(i - j) > 2:
                continue
            for d in (500, 2000):
                for plate in ((-8000, -8000, 12000, 12000), (1500, 500, 2200, 3000), (2000, -1000, 9000, 2000)):
                    for k in ('B', 'A', 'own'):
                        for pn in 'CAB':
                            r = [(ms[i], 'A', 0, 0, 1000, 4000)]
                            if k == 'own':
                                r += [(ms[i], 'A', 1000, 0, 1000 + d, 800), (ms[i], 'A', 1000 + d, 0, 2000 + d, 4000)]
                            else:
                                r += [(ms[i], k, 1000 + d, 500, 2000 + d, 3000)]
                            r += [(ms[j], pn) + plate]
                            yield (pdk, 0.001, True, None, tuple(r))


def quads():
    """wire, two shields on different layers, plate"""
    sh = [(2500, 0, 3500, 4000), (3000, 1000, 5000, 3000), (2000, -1000, 2500, 5000)]
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for i in range(len(ms) - 3):
            for p, q in itertools.product(sh, repeat=2):
                for nets in (('A', 'B', 'C', 'D'), ('A', 'A', 'B', 'C'), ('A', 'B', 'A', 'B'), ('A', 'B', 'B', 'A')):
                    for rev in (0, 1):
                        l = [ms[i], ms[i + 1], ms[i + 2], ms[i + 3]]
                        if rev:
                            l.reverse()
                        yield (pdk, 0.001, True, None, ((l[0], nets[0], 0, 0, 2000, 4000), (l[1], nets[1]) + p,
                                                        (l[2], nets[2]) + q, (l[3], nets[3], 2200, -500, 7000, 4500)))


def misc():
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for dbu in (0.0005, 0.002, 0.005, 0.01):
            for a, b in zip(ms, ms[1:]):
                for d in (0, 300, 700):
                    yield (pdk, dbu, True, None, ((a, 'A', 0, 0, 400, 800), (b, 'B', 400 + d, 200, 1000 + d, 1000)))
        for m, cap, plate, below, above in enum25.MIM[pdk]:
            for bn, an, pn in itertools.product('AB', 'AC', 'AC'):
                for scale in (True, False):
                    yield (pdk, 0.001, scale, None, ((below, bn, -3000, 0, 1000, 4000), (m, 'A', 4000, 0, 8000, 4000),
                                                     (cap, 'A', 0, 0, 4000, 4000), (plate, pn, 500, 500, 3500, 3500),
                                                     (above, an, 500, -3000, 6000, 2000)))
        for halo in (1.0, 3.0, 20.0):
            for a, b in itertools.permutations(ms[1:4], 2):
                for d in (0, 800, 2500, 6000):
                    for scale in (True, False):
                        yield (pdk, 0.001, scale, halo, ((a, 'A', 0, 0, 2000, 4000),
                                                         (b, 'B', 2000 + d, 1000, 5000 + d, 6000)))


def slivers():
    """narrow targets, narrow remainders of partially shielded targets, narrow edges; further target behind them"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for i in range(len(ms) - 2):
            for a, s, b in ((ms[i + 2], ms[i + 1], ms[i]), (ms[i], ms[i + 1], ms[i + 2])):
                for w in (1, 2, 5, 10, 20, 50, 100):
                    for g in (0, 1, 100):
                        for x in (0, 1000):
                            e = (a, 'A', 0, 0, 4000, 400)
                            far = (b, 'C', x, 2000, 4000, 3000)
                            yield (pdk, 0.001, True, None, (e, (b, 'B', 0, 400 + g, 4000, 400 + g + w), far))
                            yield (pdk, 0.001, True, None, (e, far, (b, 'B', 0, 400 + g, 4000, 400 + g + w)))
                            yield (pdk, 0.001, True, None, (e, far, (b, 'B', 0, 3000 + g, 4000, 3000 + g + w)) if g
                                   else (e, (b, 'B', x, 400, x + w, 3000), far[:2] + (x + w + 100,) + far[3:]))
                            # shield s leaves w visible of the target
                            yield (pdk, 0.001, True, None, (e, (b, 'B', 0, 600, 4000, 1200), far,
                                                            (s, 'D', -100, 600 + w, 4100, 1300)))
                            yield (pdk, 0.001, True, None, (e, (b, 'B', 0, 600, 4000, 1200), far,
                                                            (s, 'A', -100, 500, 4100, 1200 - w)))
                            yield (pdk, 0.001, True, None, ((a, 'A', 0, 0, w, 4000), (b, 'B', 200 + g, 0, 900, 4000),
                                                            (b, 'C', -500, 4000 + g, 700, 5000)))


def names():
    """net names that are easily confused; unlabelled nets"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for a, b in enum25.TRICKY:
            for i, j in itertools.combinations(range(4), 2):
                for c in ('A', 'C', None):
                    r = tuple(((ms[i], a, 0, 0, 1000, 4000), (ms[j], b, 1500, 500, 3000, 9000), (ms[-1], c, 4000, -2000, 5500, 12000)))
                    if enum25.legal([(x[0], str(x[1])) + x[2:] for x in r]):
                        yield (pdk, 0.001, True, None, r)


def body(case):
    return caps.check(case, 'f')


chk.explore(single(), body, 'single')
chk.explore(pairs(), body, 'pairs')
chk.explore(triples(), body, 'triples')
chk.explore(lateral(), body, 'lateral')
chk.explore(quads(), body, 'quads')
chk.explore(misc(), body, 'misc')
chk.explore((c for c in slivers() if enum25.legal(c[4])), body, 'slivers')
chk.explore(names(), body, 'names')
chk.finish()
