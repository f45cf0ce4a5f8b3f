"""C08: the generated 3D model encloses exactly the drawn volumes (read back from the written FasterCap input files, voxel oracle)."""
import itertools
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, fc, rcx

chk = core.Check('C08', rule='every arrangement of 2 or 3 boxes (x, y, z intervals of a small grid) with every role assignment; outcomes are distinct face structures')
T = chk.thorough
kdb = rcx.mods().kdb
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
V = core.Violation
U = 1000           # database units per grid unit
KV = 3.5
MAT = {'m1': 2.0, 'm2': 5.0, 'm3': 7.0}
ORDER = [('+', 'A'), ('+', 'B'), ('-', 'm1'), ('-', 'm2'), ('-', 'm3')]
BYK = {KV: None, **{k: ('-', m) for m, k in MAT.items()}}


def build(boxes, order, amax, b):
    """boxes in the order of adding"""
    mb = FasterCapModelBuilder(dbu=0.001, k_void=KV, delaunay_amax=amax, delaunay_b=b)
    for kind, m in order:
        if kind == '-':
            mb.add_material(name=m, k=MAT[m])
    for (r, x0, x1, y0, y1, z0, z1) in boxes:
        reg = kdb.Region(kdb.Box(x0 * U, y0 * U, x1 * U, y1 * U))
        if r[0] == '+':
            mb.add_conductor(net_name=r[1], layer=reg, z=z0 * U * 0.001, height=(z1 - z0) * U * 0.001)
        else:
            mb.add_dielectric(material_name=r[1], layer=reg, z=z0 * U * 0.001, height=(z1 - z0) * U * 0.001)
    return mb.generate()


def read(gen):
    w = f"{chk.wdir}/c08_{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    lst = gen.write_fastcap(output_dir_path=w, prefix='p')
    kv, surf = fc.read_lst(lst)
    return kv, surf


def faces(surf):
    """surfaces of the files -> {(low, high, axis, coord in units): triangles}"""
    num2net = {}
    for s in surf:
        for n, name in s['names']:
            num2net[n] = name
    res = {}
    for s in surf:
        kinds = fc.surface_faces(s['tris'], U, None)
        if s['kout'] not in BYK or s['kin'] is not None and s['kin'] not in BYK:
            raise V(f"unknown permittivity in {s['file']}: {s['kout']}, {s['kin']}")
        out = BYK[s['kout']]
        if s['kind'] == 'C':
            nums = {t[0] for t in s['tris']}
            if len(nums) != 1 or not nums <= set(num2net):
                raise V(f"{s['file']}: conductor numbers {nums}, named are {num2net}")
            inn = ('+', num2net[nums.pop()])
        else:
            inn = BYK[s['kin']]
        for (a, c, d), tr in kinds.items():
            # (the reference point lies on the outside)
            low, high = (inn, out) if d > 0 else (out, inn)
            if c % U:
                raise V(f"{s['file']}: surface at {'xyz'[a]}={c}, off grid")
            res.setdefault((low, high, a, c // U), []).extend(tr)
    return res


def body(case):
    boxes, order, amax, b = case
    vox = fc.Voxels(boxes, order)
    if vox.conductors_touch():
        return None, None
    gen = build(boxes, [o for o in order if o[0] == '-'], amax, b)
    kvoid, surf = read(gen)
    if kvoid != KV:
        raise V(f"k_void {kvoid}")
    exp = vox.faces()
    fc.compare(faces(surf), exp, U, f"boxes {boxes}, priority {order}")
    return {'models': 1}, tuple(sorted((str(k[0]), str(k[1]), k[2], len(v)) for k, v in exp.items()))


def iv(n):
    return [(a, b) for a in range(n) for b in range(a + 1, n + 1)]


A, Bn, M1, M2, M3 = ORDER


def canonical(boxes):
    for i in (1, 3, 5):
        if min(b[i] for b in boxes):
            return False
    return True


def pair_cases():
    X, Y, Z = iv(3), [(0, 2), (1, 2), (1, 3)], iv(3)
    opts = [(x0, x1, y0, y1, z0, z1) for (x0, x1), (y0, y1), (z0, z1) in itertools.product(X, Y, Z)]
    for ra, rb in ((A, A), (A, Bn), (A, M1), (M1, M2), (M1, M1)):
        for p, q in itertools.product(opts, opts):
            if ra == rb and q < p:
                continue
            bx = ((ra, *p), (rb, *q))
            if canonical(bx):
                yield (bx, tuple(ORDER), 0.0, 0.0)
                if ra == M1 and rb == M2:
                    yield (bx, (A, Bn, M2, M1, M3), 0.0, 0.0)



def triple_cases():
    X, Z = [(0, 1), (0, 2), (1, 2)], iv(3) if T else [(0, 1), (0, 2), (1, 2), (1, 3)]
    Y = [(0, 2), (1, 2)] if T else [(0, 2)]
    o1 = [(x0, x1, y0, y1, z0, z1) for (x0, x1), (y0, y1), (z0, z1) in itertools.product(X, Y, Z)]
    o3 = [(x0, x1, y0, y1, z0, z1) for (x0, x1), (y0, y1), (z0, z1) in itertools.product(X, [(0, 2), (1, 2)], Z)]
    for roles in ((A, A, A), (A, A, Bn), (A, A, M1), (A, Bn, M1), (A, M1, M1), (A, M1, M2), (M1, M2, A), (M1, M1, M1), (M1, M1, M2), (M1, M2, M2), (M1, M2, M3)):
        for p, q, r in itertools.product(o1, o1, o3):
            if roles[0] == roles[1] and q < p:
                continue
            bx = tuple((roles[i], *o) for i, o in enumerate((p, q, r)))
            if canonical(bx):
                yield (bx, tuple(ORDER), 0.0, 0.0)


# four boxes: two dielectrics around and above two conductor pieces (as in the process stacks: sidewall, conformal, simple)
def quad_cases():
    Z = [(0, 1), (0, 2), (1, 2), (1, 3)] + ([(0, 3), (2, 3)] if T else [])
    X = [(0, 3), (1, 2), (0, 2), (1, 3)]
    for roles in ((A, A, M1, M2), (A, Bn, M1, M2), (A, M1, M2, M3), (M1, M1, M2, M3)):
        for xs in itertools.product([(1, 2), (0, 2)], X if T else X[:3], X if T else X[:2], [(0, 3), (1, 2)] if T else [(0, 3)]):
            for zs in itertools.product(Z, repeat=4):
                bx = tuple((roles[i], *xs[i], 0, 2 if i % 2 else 1, *zs[i]) for i in range(4))
                if canonical(bx):
                    yield (bx, tuple(ORDER), 0.0, 0.0)


# triangulation settings: the refined triangles tile the same surfaces
def triangulation_cases():
    opts = [(x0, x1, 0, 2, z0, z1) for (x0, x1), (z0, z1) in itertools.product(iv(3), iv(2))]
    for amax, b in ((0.0, 1.0), (50.0, 0.5), (0.3, 0.5), (0.1, 1.0)) + (((0.02, 0.7), (1.0, 0.1)) if T else ()):
        for ra, rb in ((A, A), (A, M1), (M1, M2)):
            for p, q in itertools.product(opts, opts):
                if ra == rb and q < p:
                    continue
                bx = ((ra, *p), (rb, *q))
                if canonical(bx):
                    yield (bx, tuple(ORDER), amax, b)


# ---------------------------------------------------------------- heights that are not exact binary numbers, negative heights
ZU = 100


def float_body(case):
    ra, (za, ha), rb, (zb, hb), off = case
    mb = FasterCapModelBuilder(dbu=0.001, k_void=KV, delaunay_amax=0.0, delaunay_b=0.0)
    for m in ('m1', 'm2'):
        mb.add_material(name=m, k=MAT[m])
    boxes = []
    for r, z, h, x in ((ra, za, ha, (0, 2)), (rb, zb, hb, (1, 3))):
        reg = kdb.Region(kdb.Box(x[0] * U, 0, x[1] * U, U))
        add = mb.add_conductor if r[0] == '+' else mb.add_dielectric
        # (the way heights come about in a stack: start + thickness)
        add(r[1], reg, 0.1 * z + 0.1 * off, 0.1 * h)
        boxes.append((r, *x, 0, 1, z + off, z + off + h))
    vox = fc.Voxels(boxes, ORDER)
    if vox.conductors_touch():
        return None, None
    kvoid, surf = read(mb.generate())
    found = {}
    for (low, high, a, c), tr in raw_faces(surf).items():
        found[low, high, a, c] = tr
    exp = {}
    for (low, high, a, c), cells in vox.faces().items():
        exp[low, high, a, c * (ZU if a == 2 else U)] = cells
    for k in set(found) | set(exp):
        reg, want = kdb.Region(), kdb.Region()
        ar = 0
        for t in found.get(k, ()):
            q = kdb.Polygon([kdb.Point(*v) for v in t])
            ar += q.area2() / 2
            reg.insert(q)
        for (x, y) in exp.get(k, ()):
            uy = ZU if k[2] != 2 else U
            want.insert(kdb.Box(x * U, y * uy, (x + 1) * U, (y + 1) * uy))
        if not (reg ^ want).is_empty() or abs(ar - want.area()) > 1e-6:
            raise V(f"boxes {boxes} (heights in 0.1 um): the surface {k} is {reg} instead of {want.merged()}")
    return {'models': 1}, (ra, rb, za < zb, za + ha < zb + hb, za + ha == zb)


def raw_faces(surf):
    num2net = {n: name for s in surf for n, name in s['names']}
    res = {}
    for s in surf:
        out = BYK[s['kout']]
        inn = ('+', num2net[s['tris'][0][0]]) if s['kind'] == 'C' else BYK[s['kin']]
        for (a, c, d), tr in fc.surface_faces(s['tris'], U, None).items():
            low, high = (inn, out) if d > 0 else (out, inn)
            res.setdefault((low, high, a, c), []).extend(tr)
    return res


def float_cases():
    n = 10 if T else 7
    zs = [(z, h) for z in range(n) for h in range(1, n + 1 - z)]
    for ra, rb in ((A, A), (A, M1), (M1, M2)):
        for p in zs:
            for q in zs:
                for off in (0, -3, 7) if T else (0, -3):
                    yield (ra, p, rb, q, off)


# ---------------------------------------------------------------- polygons with diagonal edges and holes
P = kdb.Polygon
SHAPES = {'box': P(kdb.Box(0, 0, 2, 2)), 'tri': P([kdb.Point(0, 0), kdb.Point(0, 2), kdb.Point(2, 0)]), 'tri2': P([kdb.Point(2, 2), kdb.Point(2, 0), kdb.Point(0, 2)]),
          'dia': P([kdb.Point(1, 0), kdb.Point(0, 1), kdb.Point(1, 2), kdb.Point(2, 1)]), 'L': P([kdb.Point(0, 0), kdb.Point(0, 2), kdb.Point(1, 2), kdb.Point(1, 1), kdb.Point(2, 1), kdb.Point(2, 0)]),
          'small': P(kdb.Box(1, 0, 2, 1)), 'bar': P(kdb.Box(0, 0, 3, 1))}
RING = P(kdb.Box(0, 0, 3, 3))
RING.insert_hole(kdb.Box(1, 1, 2, 2))
SHAPES['ring'] = RING
NETSHIFT = 4


def shape(name, dx, dy):
    return SHAPES[name].moved(dx, dy) * U


def poly_body(case):
    items, order, amax, b = case
    its = [(r, shape(n, dx, dy), z0 * U, z1 * U) for (r, n, dx, dy, z0, z1) in items]
    sl = fc.slabs([(r, kdb.Region(g), z0, z1) for r, g, z0, z1 in its], order)
    if fc.touching(sl):
        return None, None
    mb = FasterCapModelBuilder(dbu=0.001, k_void=KV, delaunay_amax=amax, delaunay_b=b)
    for kind, m in order:
        if kind == '-':
            mb.add_material(name=m, k=MAT[m])
    for (r, poly, z0, z1) in its:
        (mb.add_conductor if r[0] == '+' else mb.add_dielectric)(r[1], kdb.Region(poly), z0 * 0.001, (z1 - z0) * 0.001)
    _, surf = read(mb.generate())
    num2net = {n: name for s in surf for n, name in s['names']}
    fc.compare_stack(surf, sl, lambda s: ('+', num2net[s['tris'][0][0]]), lambda k: BYK[k], str(items))
    return {'models': 1}, tuple(sorted((str(k), round(r.area() / 1e5)) for z0, z1, d in sl for k, r in d.items()))


def poly_cases():
    Z = [((0, 1), (0, 1)), ((0, 2), (1, 2)), ((0, 1), (1, 2)), ((0, 2), (1, 3)), ((1, 2), (0, 3))]
    D = [(0, 0), (1, 0), (1, 1), (2, 0)] + ([(-1, 1), (0, 2)] if T else [])
    for (sa, sb), (dx, dy), (za, zb) in itertools.product(itertools.product(SHAPES, repeat=2), D, Z):
        for ra, rb in ((A, A), (A, Bn), (A, M1), (M1, M2)) + (((M2, M1),) if T else ()):
            yield (((ra, sa, 0, 0, *za), (rb, sb, dx, dy, *zb)), tuple(ORDER), 0.0, 0.0)
            if (dx, dy) == (1, 1) and sa in ('tri', 'ring', 'dia'):
                yield (((ra, sa, 0, 0, *za), (rb, sb, dx, dy, *zb)), tuple(ORDER), 0.5, 0.8)
    for (sa, sb, sc) in itertools.product(('tri', 'dia', 'ring', 'L'), ('box', 'tri2'), ('bar', 'dia', 'box')):
        for (dx, dy), (ex, ey) in itertools.product([(0, 0), (1, 1), (1, 0)], repeat=2):
            for zs in (((0, 1), (0, 2), (1, 2)), ((0, 2), (0, 1), (0, 3)), ((1, 2), (0, 2), (0, 3))):
                for roles in ((A, M1, M2), (A, A, M1), (M1, M2, A)):
                    yield (tuple((roles[i], (sa, sb, sc)[i], *((0, 0), (dx, dy), (ex, ey))[i], *zs[i]) for i in range(3)), tuple(ORDER), 0.0, 0.0)


chk.explore(pair_cases(), body, stage='pairs of boxes', chunk=200)
chk.explore(float_cases(), float_body, stage='heights', chunk=100)
chk.explore(triangulation_cases(), body, stage='triangulations', chunk=20)
chk.explore(poly_cases(), poly_body, stage='polygons', chunk=50)
chk.explore(triple_cases(), body, stage='triples of boxes', chunk=200)
chk.explore(quad_cases(), body, stage='four boxes', chunk=200)
chk.finish()
