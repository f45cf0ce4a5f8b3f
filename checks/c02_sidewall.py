"""C02: sidewall capacitance between nearest facing edges of the same layer."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, caps, pylvs, enum25

chk = core.Check('C02', rule='bounded-exhaustive layouts of 2..4 shapes on a layer (plus shapes of other layers) over '
                 'the stage alphabets; a case is distinct by its expected sidewall table and non-trivial if not empty')
T = chk.thorough
PDKS = (pylvs.SKY, pylvs.IHP)
DIST = (200, 500, 1000, 2500, 5000, 7990, 8020, 12000)


def two():
    """two boxes: every layer x distance x lateral offset x direction x net equality"""
    for pdk in PDKS:
        for m in enum25.metals(pdk):
            for d in DIST:
                for off in (-3000, -1000, 0, 500, 3000, 4000, 5000):
                    for horiz in (0, 1):
                        for nets in ('AB', 'AA'):
                            a = (0, 0, 1000, 4000)
                            b = (1000 + d, off, 3000 + d, off + 4000)
                            if horiz:
                                a, b = (a[1], a[0], a[3], a[2]), (b[1], b[0], b[3], b[2])
                            yield (pdk, 0.001, True, None, ((m, nets[0]) + a, (m, nets[1]) + b))


def three():
    """wire, blocker, wire: nearest shape wins, any net blocks, partial blocking; also several wires at one side"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for m in (ms if T else (ms[0], ms[1], ms[-1])):
            for d1, d2 in itertools.product((300, 1000, 4000), repeat=2):
                for by0, by1 in ((0, 4000), (1000, 3000), (-1000, 2000), (3000, 6000), (4000, 6000)):
                    for nets in enum25.partitions(3):
                        yield (pdk, 0.001, True, None, ((m, nets[0], 0, 0, 1000, 4000),
                                                        (m, nets[1], 1000 + d1, by0, 1500 + d1, by1),
                                                        (m, nets[2], 1500 + d1 + d2, 0, 3000 + d1 + d2, 4000)))


def shapes():
    """non-rectangular polygons (L, U, Z, T built from touching boxes) facing a box at every side"""
    polys = {
        'L': ((0, 0, 1000, 4000), (1000, 0, 3000, 1000)),
        'U': ((0, 0, 1000, 4000), (1000, 0, 3000, 1000), (3000, 0, 4000, 3000)),
        'T': ((0, 3000, 4000, 4000), (1500, 0, 2500, 3000)),
        'Z': ((0, 2000, 2000, 3000), (1500, 0, 2500, 2000), (2500, 0, 5000, 1000)),
        'O': ((0, 0, 1000, 4000), (3000, 0, 4000, 4000), (1000, 0, 3000, 1000), (1000, 3000, 3000, 4000)),
    }
    boxes = [(4500, 1000, 5500, 3500), (1200, 1500, 1700, 2500), (2000, 4500, 3500, 6000), (-2000, -1000, -500, 2000),
             (500, -3000, 6000, -500), (1200, 4200, 1700, 5000), (6000, 0, 7000, 1000)]
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for m in ((ms[1], ms[3]) if not T else ms):
            for name, p in polys.items():
                for k in (1, 2):
                    for bs in itertools.combinations(boxes, k):
                        for nets in (('B', 'C') if k == 2 else ('B', 'A')):
                            rects = tuple((m, 'A') + q for q in p) + tuple((m, n) + b for b, n in zip(bs, nets + 'B'))
                            if enum25.legal(rects):
                                yield (pdk, 0.001, True, None, rects)


def others():
    """shapes on other layers between, above, below never change sidewall capacitances; layers do not mix"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for i, j in itertools.permutations(range(len(ms)), 2):
            for d in (1000, 3000):
                for r in ((1100, 0, 1900, 4000), (0, 0, 6000, 4000), (5000, 0, 6000, 4000)):
                    for net in 'ABC':
                        yield (pdk, 0.001, True, None, ((ms[i], 'A', 0, 0, 1000, 4000),
                                                        (ms[i], 'B', 1000 + d, 0, 2000 + d, 4000),
                                                        (ms[j], net) + r))


def misc():
    """database units, halo variants, split metals (with/without MiM) count as one layer"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for dbu in (0.0005, 0.002, 0.005, 0.01):
            for m in ms:
                for d in (200, 600, 1100):
                    yield (pdk, dbu, True, None, ((m, 'A', 0, 0, 200, 800), (m, 'B', 200 + d, 100, 400 + d, 900)))
        for halo in (1.0, 2.5, 20.0, 10000.0):
            for scale in (True, False):
                for d in (900, 1100, 2400, 2600, 7900, 8100, 19000, 21000):
                    yield (pdk, 0.001, scale, halo, ((ms[2], 'A', 0, 0, 1000, 4000),
                                                     (ms[2], 'B', 1000 + d, 1000, 2000 + d, 6000)))
        for m, cap, plate, below, above in enum25.MIM[pdk]:
            for d in (500, 2000):
                for pn in 'AB':
                    yield (pdk, 0.001, True, None, ((m, 'A', 0, 0, 2000, 4000), (cap, 'A', 2000, 0, 4000, 4000),
                                                    (plate, 'C', 2000, 0, 3500, 4000),
                                                    (m, 'B', 4000 + d, 0, 6000 + d, 3000),
                                                    (plate, pn, 4000 + d, 0, 5000 + d, 1000)))


def names():
    """net names that are easily confused; unlabelled nets"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for a, b in enum25.TRICKY:
            for i, j in ((i, i) for i in range(len(ms) - 1)):
                for c in ('A', 'C', None):
                    r = tuple(((ms[i], a, 0, 0, 1000, 4000), (ms[i], b, 1500, 500, 3000, 9000), (ms[i], c, 4000, -2000, 5500, 12000)))
                    if enum25.legal([(x[0], str(x[1])) + x[2:] for x in r]):
                        yield (pdk, 0.001, True, None, r)


def fine():
    """any spacing, any visible length, down to some database units"""
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for m in (ms if T else (ms[0], ms[2])):
            for d in (139, 141, 145, 333, 777, 1001, 4567, 7993):
                for n in (3, 4, 5, 8, 11, 17, 99, 101, 1003):
                    for horiz in (0, 1):
                        for dbu in (0.001, 0.0005):
                            r = [(0, 0, 1000, 4000), (1000 + d, 4000 - n, 2000 + d, 9000), (-d - 700, 1111, -d, 1111 + n)]
                            if horiz:
                                r = [(a[1], a[0], a[3], a[2]) for a in r]
                            yield (pdk, dbu, True, None, tuple((m, x) + a for x, a in zip('ABC', r)))


def body(case):
    return caps.check(case, 's')


chk.explore(two(), body, 'two')
chk.explore(three(), body, 'three')
chk.explore(shapes(), body, 'shapes')
chk.explore(others(), body, 'others')
chk.explore(misc(), body, 'misc')
chk.explore(names(), body, 'names')
chk.explore(fine(), body, 'fine')
chk.finish()
