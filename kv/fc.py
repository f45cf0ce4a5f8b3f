"""Independent reader of FasterCap/FastCap input files (.lst/.geo) and STL files, and a voxel oracle for 3D models of boxes."""
import os
import klayout.db as kdb
from kv import core


def _n(s, dbu, what):
    v = float(s) / dbu
    r = round(v)
    if abs(v - r) > 1e-4:
        return v
    return r


def read_lst(path, dbu=0.001):
    """-> (k_void, [surface]); surface: dict(kind, file, kout, kin, plus, ref, tris=[(number, p0, p1, p2, rp)], names=[(number, name)])"""
    V = core.Violation
    base = os.path.dirname(path)
    k_void, surfaces = None, []
    with open(path, encoding='utf-8') as f:
        for line in f:
            w = line.split()
            if not w:
                continue
            if w[0] == '*':
                if 'k_void=' in line:
                    k_void = float(line.split('k_void=')[1].split()[0])
                continue
            if w[0] not in 'CD':
                raise V(f"unknown statement in the list file: {line!r}")
            # names may contain blanks: take the numbers from the end of the line
            rest = line[1:].rstrip('\n').strip()
            plus = False
            if w[0] == 'C':
                if rest.endswith('+'):
                    plus, rest = True, rest[:-1].rstrip()
                t = rest.rsplit(None, 4)
                s = dict(kind='C', file=t[0], kout=float(t[1]), kin=None, off=tuple(map(float, t[2:5])), plus=plus, ref=None)
            else:
                t = rest.rsplit(None, 8)
                s = dict(kind='D', file=t[0], kout=float(t[1]), kin=float(t[2]), off=tuple(map(float, t[3:6])), plus=False, ref=tuple(map(float, t[6:9])))
            s['tris'], s['names'] = read_geo(os.path.join(base, s['file']), dbu)
            surfaces.append(s)
    return k_void, surfaces


def read_geo(path, dbu=0.001):
    V = core.Violation
    if not os.path.isfile(path):
        raise V(f"file {os.path.basename(path)} of the list does not exist")
    tris, names = [], []
    with open(path, encoding='utf-8') as f:
        head = f.readline()
        if not head.startswith('0'):
            raise V(f"geometry file {os.path.basename(path)} has header {head!r}")
        for line in f:
            w = line.split()
            if not w or w[0] == '*':
                continue
            if w[0] == 'T':
                if len(w) != 14:
                    raise V(f"bad line {line!r} in {os.path.basename(path)}")
                c = [float(x) for x in w[2:14]]
                p = [tuple(_n(x, dbu, line) for x in c[i:i + 3]) for i in (0, 3, 6)]
                tris.append((w[1], *p, tuple(x / dbu for x in c[9:12])))
            elif w[0] == 'N':
                t = line.split(None, 2)
                names.append((t[1], t[2].rstrip('\n')))
            else:
                raise V(f"unknown line {line!r} in {os.path.basename(path)}")
    return tris, names


def read_stl(path, dbu=0.001):
    V = core.Violation
    tris, cur = [], None
    with open(path, encoding='utf-8') as f:
        text = f.read().split('\n')
    if text[0].split()[:1] != ['solid'] or [l for l in text if l][-1].split()[:1] != ['endsolid']:
        raise V(f"{os.path.basename(path)} is no STL file")
    for line in text[1:]:
        w = line.split()
        if w[:1] == ['vertex']:
            cur.append(tuple(_n(x, dbu, line) for x in w[1:4]))
        elif w[:2] == ['outer', 'loop']:
            cur = []
        elif w[:1] == ['endloop']:
            if len(cur) != 3:
                raise V(f"facet of {len(cur)} vertices in {os.path.basename(path)}")
            tris.append(tuple(cur))
    return tris


def normal(p, q, r):
    a = [q[i] - p[i] for i in range(3)]
    b = [r[i] - p[i] for i in range(3)]
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


class Voxels:
    """boxes [(role, x0, x1, y0, y1, z0, z1)] in units; role: ('+', net) or ('-', material); priority: nets first, in order, then materials in order"""

    def __init__(self, boxes, order):
        self.v = {}
        for role in reversed(order):
            for (r, x0, x1, y0, y1, z0, z1) in boxes:
                if r == role:
                    for x in range(x0, x1):
                        for y in range(y0, y1):
                            for z in range(z0, z1):
                                self.v[x, y, z] = role

    def conductors_touch(self):
        for (x, y, z), r in self.v.items():
            if r[0] == '+':
                for n in ((x + 1, y, z), (x, y + 1, z), (x, y, z + 1)):
                    s = self.v.get(n)
                    if s is not None and s[0] == '+' and s != r:
                        return True
        return False

    def faces(self):
        """{(low role or None, high role or None, axis, coordinate): set of unit cells}"""
        res = {}
        for (x, y, z), r in self.v.items():
            for axis, n, m in ((0, (x + 1, y, z), (x - 1, y, z)), (1, (x, y + 1, z), (x, y - 1, z)), (2, (x, y, z + 1), (x, y, z - 1))):
                c = (x, y, z)[axis]
                cell = tuple((x, y, z)[i] for i in range(3) if i != axis)
                s = self.v.get(n)
                if s != r:
                    res.setdefault((r, s, axis, c + 1), set()).add(cell)
                if m not in self.v:
                    res.setdefault((None, r, axis, c), set()).add(cell)
        return res


def surface_faces(tris, unit, sides, dbu=0.001):
    """triangles of one surface -> {(axis, coordinate, direction of the reference point): [2D polygon, ...]}"""
    V = core.Violation
    res = {}
    for (num, p, q, r, rp) in tris:
        n = normal(p, q, r)
        ax = [i for i in range(3) if n[i]]
        if len(ax) != 1:
            raise V(f"degenerate or oblique triangle {p} {q} {r}")
        a = ax[0]
        c = p[a]
        d = rp[a] - c
        if abs(abs(d) - 1 / dbu) > 1e-3:
            raise V(f"reference point {rp} of the triangle {p} {q} {r} is not 1 um above the triangle")
        o = [i for i in range(3) if i != a]
        res.setdefault((a, c, 1 if d > 0 else -1), []).append([(v[o[0]], v[o[1]]) for v in (p, q, r)])
    return res


def compare(found, expected, unit, what):
    """found: {(kind.., low, high, axis, coord): [[(x,y)*3], ...]}; expected: Voxels.faces() with keys (low, high, axis, coord)"""
    V = core.Violation
    for key in set(found) | set(expected):
        tr, cells = found.get(key, []), expected.get(key, ())
        low, high, axis, c = key
        at = f"between {low} (below) and {high} (above) at {'xyz'[axis]}={c}"
        area2 = 0
        reg = kdb.Region()
        for t in tr:
            (x0, y0), (x1, y1), (x2, y2) = t
            area2 += abs((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0))
            reg.insert(kdb.Polygon([kdb.Point(x, y) for x, y in t]))
        want = 2 * unit * unit * len(cells)
        if area2 != want:
            raise V(f"{what}: the surface {at} has area {area2 / 2 / unit ** 2:g} instead of {len(cells)} unit squares")
        exp = kdb.Region()
        for (x, y) in cells:
            exp.insert(kdb.Box(x * unit, y * unit, (x + 1) * unit, (y + 1) * unit))
        if not (reg ^ exp).is_empty():
            raise V(f"{what}: the surface {at} is not where it should be: {(reg ^ exp)}")


# ------------------------------------------------------------------ general polygons: slab oracle
def slabs(items, order):
    """items [(role, Region, z0, z1)] -> [(z0, z1, {role: region})]; regions disjoint, earlier roles of the order win"""
    zs = sorted({z for i in items for z in i[2:4]})
    res = []
    for z0, z1 in zip(zs, zs[1:]):
        regs, used = {}, kdb.Region()
        for role in order:
            r = kdb.Region()
            for (ro, reg, a, b) in items:
                if ro == role and a <= z0 and b >= z1:
                    for p in reg.each():
                        r.insert(p)
            r.merge()
            r -= used
            used += r
            if not r.is_empty():
                regs[role] = r
        res.append((z0, z1, regs))
    return res


def touching(sl):
    """do conductors of different nets touch each other?"""
    for i, (z0, z1, regs) in enumerate(sl):
        nets = [r for r in regs if r[0] == '+']
        nxt = sl[i + 1][2] if i + 1 < len(sl) else {}
        for p in nets:
            for q in nets:
                if p < q and not regs[p].interacting(regs[q]).is_empty():
                    return True
            for q in nxt:
                if q[0] == '+' and q != p and not regs[p].interacting(nxt[q]).is_empty():
                    return True
    return False


def identify(sl, ident):
    """roles -> identities (regions of one identity are joined; None is the void)"""
    res = []
    for z0, z1, regs in sl:
        d = {}
        for r, reg in regs.items():
            i = ident(r)
            if i is not None:
                d.setdefault(i, kdb.Region())
                d[i] += reg
        for r in d.values():
            r.merge()
        res.append((z0, z1, d))
    return res


def _vkey(p, q, nx, ny, x, y):
    """vertical plane: (low, high) sides along the normal (lexicographically positive)"""
    if (round(nx, 4), round(ny, 4)) > (0, 0):
        a, b = round(nx, 3), round(ny, 3)
    else:
        p, q, a, b = q, p, round(-nx, 3), round(-ny, 3)
    c = a * x + b * y
    return (p, q, abs(a), b + 0.0), c


def compare_stack(surf, sl, ident_c, ident_d, what, vtol=5000):
    """surf: read_lst(); sl: slabs(...) with identities; ident_c(surface) -> identity of the conductor, ident_d(k) -> identity of a dielectric"""
    V = core.Violation
    hor, ver = {}, {}
    for s in surf:
        out = ident_d(s['kout'])
        inn = ident_c(s) if s['kind'] == 'C' else ident_d(s['kin'])
        if inn == out:
            continue
        for (num, p, q, r, rp) in s['tris']:
            n = normal(p, q, r)
            le = sum(x * x for x in n) ** 0.5
            if le == 0:
                raise V(f"{what}: degenerate triangle {p} {q} {r}")
            up = sum((rp[i] - p[i]) * n[i] for i in range(3)) / le
            n = [x / le * (1 if up > 0 else -1) for x in n]
            if abs(n[2]) > 0.999999:
                hor.setdefault((inn, out, p[2]) if n[2] > 0 else (out, inn, p[2]), []).append((p, q, r))
            elif abs(n[2]) > 1e-6:
                raise V(f"{what}: oblique triangle {p} {q} {r}")
            else:
                k, c = _vkey(inn, out, n[0], n[1], p[0], p[1])
                ver.setdefault(k, []).append((c, p, q, r))
    eh, ev = {}, {}
    for i, (z0, z1, regs) in enumerate(sl + [(sl[-1][1], None, {})] if sl else []):
        lo, hi = sl[i - 1][2] if i else {}, regs
        allo, alhi = kdb.Region(), kdb.Region()
        for r in lo.values():
            allo += r
        for r in hi.values():
            alhi += r
        for p, rp_ in [*lo.items(), (None, None)]:
            for q, rq in [*hi.items(), (None, None)]:
                if p == q:
                    continue
                x = (rp_ & rq) if p and q else (rp_ - alhi) if p else (rq - allo)
                if not x.is_empty():
                    eh[p, q, z0] = x
        if z1 is None:
            continue
        done = []
        for p, rp_ in regs.items():
            rest = rp_.edges()
            for q, rq in regs.items():
                if q != p:
                    com = rest & rq.edges()
                    rest = rest - rq.edges()
                    if q not in done:
                        _add(ev, com, p, q, z0, z1)
            done.append(p)
            _add(ev, rest, p, None, z0, z1)
    for k in set(hor) | set(eh):
        reg, ar = kdb.Region(), 0
        for t in hor.get(k, ()):
            g = kdb.Polygon([kdb.Point(v[0], v[1]) for v in t])
            ar += g.area2() / 2
            reg.insert(g)
        want = eh.get(k, kdb.Region()).merged()
        if not (reg ^ want).is_empty() or abs(ar - sum(g.area2() for g in want.each()) / 2) > 1e-6:
            raise V(f"{what}: the surface between {k[0]} (below) and {k[1]} (above) at z={k[2]} is {reg.merged()} instead of {want}")
    for k in set(ver) | set(ev):
        # areas by plane; planes nearer than 2 database units are joined (rounding of oblique planes)
        a = sorted([(c, sum(x * x for x in normal(*t)) ** 0.5 / 2) for (c, *t) in ver.get(k, ())] + [(c, -w) for c, w in ev.get(k, ())])
        i = 0
        while i < len(a):
            j, tot = i, 0.0
            while j < len(a) and (j == i or a[j][0] - a[j - 1][0] < 2):
                tot += a[j][1]
                j += 1
            if abs(tot) > (vtol if k[2] and k[3] else 0.01):
                want = -sum(x[1] for x in a[i:j] if x[1] < 0)
                raise V(f"{what}: the vertical surface between {k[0]} and {k[1]} with normal {k[2:4]} at {a[i][0]:.0f} has the area {(want + tot) / 1e6:.4f} um^2 instead of {want / 1e6:.4f}")
            i = j


def _add(ev, edges, p, q, z0, z1):
    for e in edges.each():
        dx, dy = (e.p2.x - e.p1.x), (e.p2.y - e.p1.y)
        le = (dx * dx + dy * dy) ** 0.5
        if not le:
            continue
        # polygons are clockwise: the outside is on the left of the edge
        k, c = _vkey(p, q, -dy / le, dx / le, e.p1.x, e.p1.y)
        ev.setdefault(k, []).append((c, le * (z1 - z0)))
