"""C09: the written FasterCap list/geometry files and STL files describe exactly the model."""
import itertools
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, fc, rcx

chk = core.Check('C09', rule='every model of the alphabet written and read back; every pair of net names, every coordinate/permittivity/database unit')
T = chk.thorough
kdb = rcx.mods().kdb
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
V = core.Violation


def scratch(name):
    w = f"{chk.wdir}/c09_{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/stl')
    os.makedirs(w + '/geo')
    return w


def examine(gen, w, nets, mats, kvoid, dbu, prefix, what, stlprefix=''):
    """mats: name -> k; distinct k. Returns the surfaces"""
    lst = gen.write_fastcap(output_dir_path=w + '/geo', prefix=prefix)
    if not os.path.isfile(lst) or os.path.dirname(lst) != w + '/geo':
        raise V(f"{what}: list file {lst}")
    with open(lst, encoding='utf-8') as f:
        for l in f.read().rstrip('\n').split('\n'):
            n = len(l.split())
            if not (l.startswith('* ') or l.startswith('D ') and n == 10 or l.startswith('C ') and n in (6, 7)):
                raise V(f"{what}: unusable line {l!r} in the list file")
    kv, surf = fc.read_lst(lst, dbu)
    if kv != kvoid:
        raise V(f"{what}: k_void is {kv}, not {kvoid}")
    files = [s['file'] for s in surf]
    if len(set(files)) != len(files):
        raise V(f"{what}: a file is referenced twice: {files}")
    there = set(os.listdir(w + '/geo')) - {os.path.basename(lst)}
    if there != set(files):
        raise V(f"{what}: the list references {sorted(files)}, written are {sorted(there)}")
    ks = {kvoid: None, **{k: m for m, k in mats.items()}}
    number, cur = {}, None
    seen = []
    for i, s in enumerate(surf):
        if s['off'] != (0, 0, 0):
            raise V(f"{what}: {s['file']} is displaced by {s['off']}")
        if not s['tris']:
            raise V(f"{what}: {s['file']} has no triangles")
        for k in (s['kout'], s['kin']):
            if k is not None and k not in ks:
                raise V(f"{what}: {s['file']} has the unknown permittivity {k}")
        nums = {t[0] for t in s['tris']}
        if len(nums) != 1:
            raise V(f"{what}: {s['file']} has the conductor numbers {nums}")
        num = nums.pop()
        for t in s['tris']:
            n = fc.normal(*t[1:4])
            le = sum(x * x for x in n) ** .5
            if not le:
                raise V(f"{what}: degenerate triangle {t[1:4]}")
            d = sum((t[4][i] - t[1][i]) * n[i] for i in range(3)) / le
            if abs(abs(d) * dbu - 1) > 1e-6:
                raise V(f"{what}: reference point of the triangle {t[1:4]} is {d * dbu} um above it")
        if s['kind'] == 'D':
            if s['names'] or cur is not None:
                raise V(f"{what}: dielectric {s['file']} names a conductor")
            if num in number.values():
                raise V(f"{what}: number {num} is used for a dielectric and a conductor")
            s['net'] = None
            s['num'] = num
            continue
        # a conductor: consecutive files with one number, joined by '+', the last one names it
        if cur is not None and cur != num:
            raise V(f"{what}: {s['file']}: number {num} within the conductor {cur}")
        if any(num == n for n in number.values()):
            raise V(f"{what}: number {num} of {s['file']} belongs to another conductor")
        seen.append(s)
        if s['plus']:
            if s['names']:
                raise V(f"{what}: {s['file']} names the conductor, but others follow")
            cur = num
        else:
            if [n[0] for n in s['names']] != [num]:
                raise V(f"{what}: names {s['names']} in {s['file']} of the conductor {num}")
            name = s['names'][0][1]
            if name in number:
                raise V(f"{what}: two conductors are called {name}")
            number[name] = num
            for x in seen:
                x['net'] = name
            seen, cur = [], None
    if cur is not None:
        raise V(f"{what}: nothing follows the last '+'")
    if {n for n in number} != set(nets):
        raise V(f"{what}: conductors {sorted(number)} in the files, nets are {sorted(nets)}")
    for s in surf:
        if s['kind'] == 'D' and s['num'] in number.values():
            raise V(f"{what}: number {s['num']} is used for a dielectric and a conductor")
    stl(gen, w, surf, nets, mats, ks, dbu, what, stlprefix)
    return surf


def stl(gen, w, surf, nets, mats, ks, dbu, what, prefix):
    gen.dump_stl(output_dir_path=w + '/stl', prefix=prefix)
    want = {}
    for s in surf:
        for t in s['tris']:
            n = fc.normal(*t[1:4])
            up = 1 if sum((t[4][i] - t[1][i]) * n[i] for i in range(3)) > 0 else -1
            # vertices in the order that looks to the outside of the surface
            vs = t[1:4] if up > 0 else (t[1], t[3], t[2])
            rev = (vs[0], vs[2], vs[1])
            if s['kind'] == 'C':
                want.setdefault(('cond', s['net']), []).append(vs)
                if ks[s['kout']]:
                    want.setdefault(('diel', ks[s['kout']]), []).append(rev)
            else:
                if ks[s['kin']]:
                    want.setdefault(('diel', ks[s['kin']]), []).append(vs)
                if ks[s['kout']]:
                    want.setdefault(('diel', ks[s['kout']]), []).append(rev)
    files = sorted(os.listdir(w + '/stl'))
    if len(files) != len(want):
        raise V(f"{what}: STL files {files} for {sorted(want)}")
    left = dict(want)
    for f in files:
        tris = fc.read_stl(f"{w}/stl/{f}", dbu)
        if not f.startswith(prefix):
            raise V(f"{what}: STL file {f} without the prefix")
        kind = 'cond' if f[len(prefix):].startswith('cond_') else 'diel'
        key = (kind, f[len(prefix) + 5:-4])
        if key not in left:
            # (names that are no file names are written differently)
            c = [k for k in left if k[0] == kind and same(tris, left[k])]
            if not c:
                raise V(f"{what}: the triangles of {f} are no surface of the model")
            key = c[0]
        elif not same(tris, left[key]):
            raise V(f"{what}: {f} has not the triangles of {key} in the list file")
        if left.pop(key) is None:
            raise V(f"{what}: {f}")


def rot(t):
    i = t.index(min(t))
    return t[i:] + t[:i]


def same(tris, want):
    a = sorted(rot(tuple(t)) for t in tris)
    return a == sorted(rot(tuple(t)) for t in want) or a == sorted(rot((t[0], t[2], t[1])) for t in want)


# ------------------------------------------------------------------ names
NAMES = ['VDD', 'a', 'A', '$1', 'd[0]', 'd<1>', 'x,y', 'p|q', 'X1.n', 'a/b', '/', '..', 'net 1', 'a b', '+', '*', 'µ', "q'", 'N 1 VDD', 'VSUBS', '-x', 'a%GROUP1', 'g1_a',
         'x' * 150, 'x' * 300, 'x' * 299 + 'y', 'µ' * 200, 'a_b', 'a:b', 'a\\b', '$$x', 'a#b']


def name_body(case):
    n1, n2, prefix, sp = case
    w = scratch('names')
    mb = FasterCapModelBuilder(dbu=0.001, k_void=3.9, delaunay_amax=0.0, delaunay_b=0.0)
    mats = {'ox': 4.05, 'nit': 7.5}
    for m, k in mats.items():
        mb.add_material(name=m, k=k)
    mb.add_conductor(net_name=n1, layer=kdb.Region(kdb.Box(0, 0, 1000, 1000)), z=0.5, height=1.0)
    mb.add_conductor(net_name=n2, layer=kdb.Region(kdb.Box(2000, 0, 3500, 1000)), z=0.0, height=2.0)
    mb.add_dielectric(material_name='ox', layer=kdb.Region(kdb.Box(-500, 0, 2500, 1000)), z=0, height=1.0)
    mb.add_dielectric(material_name='nit', layer=kdb.Region(kdb.Box(-500, 0, 4500, 1000)), z=1.0, height=0.5)
    what = f"nets {n1[:40]!r} and {n2[:40]!r}, prefix {prefix!r}"
    surf = examine(mb.generate(), w, {n1, n2}, mats, 3.9, 0.001, prefix, what, sp)
    for net, x0, x1, z0, z1 in ((n1, 0, 1000, 500, 1500), (n2, 2000, 3500, 0, 2000)):
        pts = {p for s in surf if s['net'] == net for t in s['tris'] for p in t[1:4]}
        box = tuple((min(p[i] for p in pts), max(p[i] for p in pts)) for i in range(3))
        if box != ((x0, x1), (0, 1000), (z0, z1)):
            raise V(f"{what}: {net!r} extends over {box}")
    return {'files': len(surf)}, (len(n1) > 100, len(n2) > 100, len(surf))


def name_cases():
    for a, b in itertools.permutations(NAMES, 2):
        yield (a, b, 'FasterCap_Input_', '')
    for a, b in itertools.permutations(NAMES[:4] + NAMES[-9:-5], 2):
        for p, sp in (('', 's_'), ('x', 'cond_')):
            yield (a, b, p, sp)


# ------------------------------------------------------------------ coordinates, permittivities, database units
def coord_body(case):
    dbu, x0, w_, z0, h, kv, km, amax = case
    wd = scratch('c')
    mb = FasterCapModelBuilder(dbu=dbu, k_void=kv, delaunay_amax=amax, delaunay_b=0.3 if amax else 0.0)
    mb.add_material(name='ox', k=km)
    mb.add_conductor(net_name='A', layer=kdb.Region(kdb.Box(x0, -x0 - w_, x0 + w_, -x0)), z=z0 * dbu, height=h * dbu)
    mb.add_dielectric(material_name='ox', layer=kdb.Region(kdb.Box(x0 - 100, -x0 - w_ - 100, x0 + w_ + 100, -x0 + 100)), z=(z0 - 10) * dbu, height=(h + 20) * dbu)
    what = f"dbu {dbu}, box at {x0}, width {w_}, z {z0}, height {h}, k {kv} {km}, amax {amax}"
    surf = examine(mb.generate(), wd, {'A'}, {'ox': km}, kv, dbu, 'p', what)
    for s in surf:
        if (s['kout'], s['kin']) not in ((km, None), (kv, km), (km, kv)):
            raise V(f"{what}: permittivities {s['kout']}, {s['kin']} in {s['file']}")
        pts = {p for t in s['tris'] for p in t[1:4]}
        box = tuple((min(p[i] for p in pts), max(p[i] for p in pts)) for i in range(3))
        m = 0 if s['kind'] == 'C' else 1
        exp = ((x0 - 100 * m, x0 + w_ + 100 * m), (-x0 - w_ - 100 * m, -x0 + 100 * m), (z0 - 10 * m, z0 + h + 10 * m))
        if box != exp:
            raise V(f"{what}: {s['file']} extends over {box} instead of {exp}")
        if not amax:
            want = set(itertools.product(*exp))
            if pts != want:
                raise V(f"{what}: vertices {sorted(pts - want)} are no corners of the box")
    return {'files': len(surf)}, (dbu, kv, km)


def coord_cases():
    xs = [0, 1, 7, 12345, 123457, -999999, 1234567] + ([-3, 10 ** 7 + 1] if T else [])
    for dbu in (0.001, 0.005, 0.0005, 0.01) if T else (0.001, 0.005, 0.0005):
        for x0, w_, z0, h in itertools.product(xs, [10, 333, 123456], [0, 1, -777, 5371], [10, 11, 360, 1259]):
            yield (dbu, x0, w_, z0, h, 3.9, 4.05, 0.0)
    for kv, km in itertools.permutations([1.0, 1.0006, 2.2, 3.9, 3.91, 4, 4.05, 7.5, 11.9, 123.456789], 2):
        yield (0.001, 0, 1000, 0, 500, kv, km, 0.0)
    for amax in (0.01, 0.1, 1.0, 50.0):
        for x0, w_, h in itertools.product([0, 12345, -777], [333, 1000, 3000], [360, 1259]):
            yield (0.001, x0, w_, 100, h, 3.9, 4.05, amax)


# ------------------------------------------------------------------ models
MAT = {'m1': 2.0, 'm2': 5.0, 'm3': 7.0}
U = 1000
SH = [('b', 0, 0, 2, 2), ('b', 1, 0, 3, 1), ('b', 0, 0, 3, 3), ('t', 0, 0, 2, 2), ('r', 0, 0, 3, 3)]


def region(s):
    k, x0, y0, x1, y1 = s
    if k == 'b':
        return kdb.Region(kdb.Box(x0 * U, y0 * U, x1 * U, y1 * U))
    if k == 't':
        return kdb.Region(kdb.Polygon([kdb.Point(x0 * U, y0 * U), kdb.Point(x0 * U, y1 * U), kdb.Point(x1 * U, y0 * U)]))
    return kdb.Region(kdb.Box(x0 * U, y0 * U, x1 * U, y1 * U)) - kdb.Region(kdb.Box((x0 + 1) * U, (y0 + 1) * U, (x1 - 1) * U, (y1 - 1) * U))


def model_body(case):
    items, amax, b = case
    occ = set()
    w = scratch('m')
    mb = FasterCapModelBuilder(dbu=0.001, k_void=3.9, delaunay_amax=amax, delaunay_b=b)
    for m, k in MAT.items():
        mb.add_material(name=m, k=k)
    conds = {}
    for (r, s, z0, z1) in items:
        if r in MAT:
            mb.add_dielectric(material_name=r, layer=region(s), z=z0, height=z1 - z0)
        else:
            for o, so, a, e in conds.get('x', ()):
                if o != r and a <= z1 and z0 <= e and not region(so).interacting(region(s)).is_empty():
                    return None, None       # (touching conductors)
            conds.setdefault('x', []).append((r, s, z0, z1))
            mb.add_conductor(net_name=r, layer=region(s), z=z0, height=z1 - z0)
    surf = examine(mb.generate(), w, {c[0] for c in conds.get('x', ())}, MAT, 3.9, 0.001, 'p', f"{items}, amax {amax}, b {b}")
    return {'files': len(surf)}, (len(surf), sum(len(s['tris']) for s in surf))


def model_cases():
    Z = [(0, 1), (0, 2), (1, 2), (1, 3)]
    for ra, rb, rc in (('A', 'm1', 'm2'), ('A', 'A', 'm1'), ('A', 'B', 'm1'), ('m1', 'A', 'm2'), ('m3', 'm2', 'm1'), ('m2', 'm1', 'm2')):
        for sa, sb, sc in itertools.product(SH, SH, SH[:3]):
            for za, zb, zc in itertools.product(Z, Z, Z if T else Z[1:3]):
                if not T and (za, zb) not in ((Z[0], Z[0]), (Z[0], Z[2]), (Z[1], Z[2]), (Z[3], Z[0])):
                    continue
                yield (((ra, sa, *za), (rb, sb, *zb), (rc, sc, *zc)), 0.0, 0.0)
    for sa, sb in itertools.product(SH, SH):
        for za, zb in itertools.product(Z, Z):
            for amax, b in ((0.5, 0.5), (50.0, 0.5), (0.2, 1.0)):
                yield ((('A', sa, *za), ('m1', sb, *zb)), amax, b)
    # nets in any order of height, many surfaces per net
    for perm in itertools.permutations(['A', 'B', 'VSUBS']):
        for z in itertools.permutations([0, 2, 4]):
            for hs in itertools.product([1, 3], repeat=2):
                yield (tuple((n, ('b', 0, 0, 1 + i % 2, 2), z[i], z[i] + 1) for i, n in enumerate(perm)) + (('m1', ('b', 0, 0, 1, 1), 0, hs[0]), ('m2', ('b', 0, 1, 1, 3), 0, hs[1])), 0.0, 0.0)


chk.explore(name_cases(), name_body, stage='names', chunk=20)
chk.explore(coord_cases(), coord_body, stage='coordinates', chunk=20)
chk.explore(model_cases(), model_body, stage='models', chunk=50)
chk.finish()
