"""C01: overlap capacitance = unshielded overlap area x area capacitance."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, caps, pylvs, enum25

chk = core.Check('C01', rule='bounded-exhaustive layouts: layers x box placements x net partitions of the stage '
                 'alphabets; a case is distinct by its expected overlap table and non-trivial if that is not empty')
SKY, IHP = pylvs.SKY, pylvs.IHP
P = (-3000, -2000, 0, 1000, 3000, 4000)
T = chk.thorough


def pairs():
    """two boxes on every ordered pair of layers, at every relative placement, same/different net"""
    for pdk in (SKY, IHP):
        for a, b in itertools.combinations(enum25.metals(pdk), 2):
            for dx in P:
                for dy in P:
                    for nets in ('AB', 'AA'):
                        yield (pdk, 0.001, True, None, ((a, nets[0], 0, 0, 4000, 4000),
                                                        (b, nets[1], dx, dy, dx + 3000, dy + 3000)))


ALPHA = [(0, 0, 4000, 4000), (1000, 1000, 3000, 3000), (-1000, 2000, 2000, 5000), (2000, -2000, 6000, 2000),
         (0, 1000, 4000, 2000), (5000, 0, 6000, 1000)]


MORE = [(-2000, -2000, 6000, 6000), (3000, 3000, 5000, 5000), (500, 0, 1500, 4000), (2500, -1000, 3500, 5000)]


def triples():
    """three boxes on every increasing triple of layers, all placements of the alphabet, all net partitions"""
    for pdk in (SKY, IHP):
        ms = enum25.metals(pdk)
        for tri in itertools.combinations(range(len(ms)), 3):
            if not T and pdk == IHP and tri[2] - tri[0] > 4:
                continue
            for b, c in itertools.product(ALPHA + (MORE if T else []), repeat=2):
                for nets in enum25.partitions(3):
                    yield (pdk, 0.001, True, None, tuple((ms[l], n) + r for l, n, r in
                                                         zip(tri, nets, (ALPHA[0], b, c))))


def quads():
    """bottom plate, two shield pieces on one layer, one or two top plates: union of shields, several polygons"""
    pcs = [(0, 0, 2000, 4000), (1000, 1000, 3000, 3000), (2500, 0, 4000, 4000), (-1000, -1000, 1000, 5000)]
    for pdk in (SKY, IHP):
        ms = enum25.metals(pdk)
        base = (0, 1, 2, 3) if not T else range(len(ms) - 3)
        for i in base:
            a, b, c, d = ms[i], ms[i + 1], ms[i + 2], ms[i + 3]
            for p, q in itertools.combinations(pcs, 2):
                for nets in enum25.partitions(4):
                    # two shields on different layers, which overlap each other
                    yield (pdk, 0.001, True, None, ((a, nets[0], 0, 0, 4000, 4000), (b, nets[1]) + p,
                                                    (c, nets[2]) + q, (d, nets[3], 0, 0, 4000, 4000)))
                    # two pieces on one layer
                    if enum25.legal(((b, nets[1]) + p, (b, nets[2]) + q)):
                        yield (pdk, 0.001, True, None, ((a, nets[0], 0, 0, 4000, 4000), (b, nets[1]) + p,
                                                        (b, nets[2]) + q, (d, nets[3], 0, 0, 4000, 4000)))


def mim():
    """split metal layers (with/without MiM cap) and MiM plates"""
    for pdk in (SKY, IHP):
        for m, cap, plate, below, above in enum25.MIM[pdk]:
            for w in (1000, 2000, 4000):
                for nb in 'AB':
                    for na in 'ABC':
                        for np in 'AC':
                            r = [(below, nb, 0, 0, 4000, 4000), (m, 'A', 4000, 0, 8000, 4000),
                                 (cap, 'A', 0, 0, 4000, 4000), (plate, np, 0, 0, w, 3000),
                                 (above, na, 500, 0, 6000, 2000)]
                            for drop in ((), (0,), (2,), (3,), (4,), (0, 3)):
                                yield (pdk, 0.001, True, None, tuple(x for i, x in enumerate(r) if i not in drop))


def dbus():
    """other database units"""
    for pdk in (SKY, IHP):
        ms = enum25.metals(pdk)
        for dbu in (0.0005, 0.002, 0.005, 0.01):
            for i in range(len(ms) - 1):
                for b in ALPHA:
                    yield (pdk, dbu, True, None, ((ms[i], 'A') + ALPHA[0], (ms[i + 1], 'B') + b))


def names():
    """net names that are easily confused; unlabelled nets"""
    for pdk in (SKY, IHP):
        ms = enum25.metals(pdk)
        for a, b in enum25.TRICKY:
            for i, j in itertools.combinations(range(4), 2):
                for c in ('A', 'C', None):
                    r = tuple(((ms[i], a, 0, 0, 4000, 4000), (ms[j], b, 1000, 1000, 3000, 9000), (ms[-1], c, 2000, -2000, 2500, 12000)))
                    if enum25.legal([(x[0], str(x[1])) + x[2:] for x in r]):
                        yield (pdk, 0.001, True, None, r)


def body(case):
    return caps.check(case, 'o')


chk.explore(pairs(), body, 'pairs')
chk.explore(triples(), body, 'triples')
chk.explore(quads(), body, 'quads')
chk.explore(mim(), body, 'mim')
chk.explore(dbus(), body, 'dbus')
chk.explore(names(), body, 'names')
chk.finish()
