"""Independent reference of the 2.5D capacitance model (README/Magic semantics), for Manhattan layouts.

Everything is computed on integer boxes with plain Python (no KLayout): overlap areas by coordinate
compression, sidewall/fringe column by column along every edge of the merged polygons."""
from __future__ import annotations

import math
from collections import defaultdict

SUBS = 'VSUBS'


class Tech:
    """Reads the parts of the technology JSON which the reference needs (does not use klayout_pex)."""

    def __init__(self, j, pdk=None):
        pp = j['process_parasitics']
        self.halo_um = float(pp['side_halo'])
        cap = pp['capacitance']
        self.overlap = {}
        self.side = {}
        for s in cap['substrates']:
            self.overlap[s['layer_name'], SUBS] = s['area_capacitance']
            self.side[s['layer_name'], SUBS] = s['perimeter_capacitance']
        for o in cap['overlaps']:
            self.overlap[o['top_layer_name'], o['bottom_layer_name']] = o['capacitance']
        for o in cap['sideoverlaps']:
            self.side[o['in_layer_name'], o['out_layer_name']] = o['capacitance']
        self.sidewall = {s['layer_name']: (s['capacitance'], s.get('offset', 0.0)) for s in cap['sidewalls']}
        gds = {}
        canon = {}
        gds_orig = {l['name']: (l['drw_gds_pair']['layer'], l['drw_gds_pair'].get('datatype', 0)) for l in j['layers']}
        for l in j['lvs_computed_layers']:
            p = l['layer_info']['drw_gds_pair']
            pair = (p['layer'], p.get('datatype', 0))
            gds[l['layer_info']['name']] = pair
            canon[pair] = l['original_layer_name']
        self.canon_of_computed = {n: canon[p] for n, p in gds.items()}
        self.order = [SUBS]
        self.computed = {}     # canonical -> computed names that make up this metal
        for l in j['process_stack']['layers']:
            if l['layer_type'] != 'LAYER_TYPE_METAL':
                continue
            pair = gds.get(l['name']) or gds_orig.get(l['name'])
            c = canon[pair]
            if c not in self.order:
                self.order.append(c)
            self.computed.setdefault(c, []).append(
                [n for n, p in gds.items() if p == pair and not n.endswith(('_pin_con', '_label', '_text'))][0])


# ------------------------------------------------------------------------------------- geometry

def cells(boxes):
    """coordinate-compressed cells covered by a union of boxes: xs, ys, set of (i,j)"""
    xs = sorted({v for b in boxes for v in (b[0], b[2])})
    ys = sorted({v for b in boxes for v in (b[1], b[3])})
    ix = {v: i for i, v in enumerate(xs)}
    iy = {v: i for i, v in enumerate(ys)}
    s = set()
    for b in boxes:
        for i in range(ix[b[0]], ix[b[2]]):
            for j in range(iy[b[1]], iy[b[3]]):
                s.add((i, j))
    return xs, ys, s


def area_and(a, b, minus=()):
    """area of union(a) & union(b) - union(minus)"""
    allb = list(a) + list(b) + list(minus)
    xs = sorted({v for q in allb for v in (q[0], q[2])})
    ys = sorted({v for q in allb for v in (q[1], q[3])})
    t = 0
    for x0, x1 in zip(xs, xs[1:]):
        ca = [q for q in a if q[0] <= x0 and x1 <= q[2]]
        cb = [q for q in b if q[0] <= x0 and x1 <= q[2]]
        if not ca or not cb:
            continue
        cm = [q for q in minus if q[0] <= x0 and x1 <= q[2]]
        for y0, y1 in zip(ys, ys[1:]):
            if any(q[1] <= y0 and y1 <= q[3] for q in ca) and any(q[1] <= y0 and y1 <= q[3] for q in cb) \
                    and not any(q[1] <= y0 and y1 <= q[3] for q in cm):
                t += (x1 - x0) * (y1 - y0)
    return t


def components(boxes):
    """groups boxes that overlap or share an edge (of positive length) into polygons"""
    n = len(boxes)
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(i):
            a, b = boxes[i], boxes[j]
            dx = min(a[2], b[2]) - max(a[0], b[0])
            dy = min(a[3], b[3]) - max(a[1], b[1])
            if dx >= 0 and dy >= 0 and (dx > 0 or dy > 0):
                comp[find(i)] = find(j)
    g = defaultdict(list)
    for i in range(n):
        g[find(i)].append(boxes[i])
    return list(g.values())


def outline(boxes):
    """maximal outline edges of a union of boxes: (axis, pos, lo, hi, outward) with axis 'x': vertical edge at
    x=pos spanning y lo..hi, outward +1/-1"""
    xs, ys, s = cells(boxes)
    edges = []
    for (axis, sign) in (('x', 1), ('x', -1), ('y', 1), ('y', -1)):
        lines = defaultdict(list)
        for (i, j) in s:
            if axis == 'x':
                if (i + sign, j) not in s:
                    lines[xs[i + 1] if sign > 0 else xs[i]].append((ys[j], ys[j + 1]))
            else:
                if (i, j + sign) not in s:
                    lines[ys[j + 1] if sign > 0 else ys[j]].append((xs[i], xs[i + 1]))
        for pos, iv in lines.items():
            iv.sort()
            cur = None
            for a, b in iv:
                if cur and cur[1] == a:
                    cur[1] = b
                else:
                    if cur:
                        edges.append((axis, pos, cur[0], cur[1], sign))
                    cur = [a, b]
            edges.append((axis, pos, cur[0], cur[1], sign))
    return edges


def local(box, e):
    """box in the frame of the edge: (x0,x1,y0,y1), y outward distance"""
    axis, pos, lo, hi, sign = e
    if axis == 'x':
        a, b = box[1] - lo, box[3] - lo
        y0, y1 = (box[0] - pos, box[2] - pos)
    else:
        a, b = box[0] - lo, box[2] - lo
        y0, y1 = (box[1] - pos, box[3] - pos)
    if sign < 0:
        y0, y1 = -y1, -y0
    return a, b, y0, y1


def union_iv(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def minus_iv(iv, sub):
    out = []
    sub = union_iv(sub)
    for a, b in union_iv(iv):
        for c, d in sub:
            if d <= a or c >= b:
                continue
            if c > a:
                out.append([a, c])
            a = max(a, d)
            if a >= b:
                break
        if a < b:
            out.append([a, b])
    return out


# ------------------------------------------------------------------------------------- extraction

class Ref:
    """shapes: {canonical layer: {net: [(x0,y0,x1,y1)]}}"""

    def __init__(self, tech, shapes, dbu, scale, bbox=None, halo_um=None):
        self.t = tech
        self.dbu = dbu
        self.scale = scale
        self.halo = tech.halo_um if halo_um is None else halo_um
        self.shapes = {k: {n: list(b) for n, b in v.items() if b} for k, v in shapes.items()}
        allb = [b for v in self.shapes.values() for bs in v.values() for b in bs]
        if bbox is None:
            bbox = (min(b[0] for b in allb), min(b[1] for b in allb), max(b[2] for b in allb), max(b[3] for b in allb))
        h = round(self.halo / dbu)
        self.subs = (bbox[0] - h, bbox[1] - h, bbox[2] + h, bbox[3] + h)
        self.shapes[SUBS] = {SUBS: [self.subs]}
        self.order = [l for l in tech.order if self.shapes.get(l)]
        self.polys = []       # (layer index, net, boxes)
        for i, l in enumerate(self.order):
            for net, bs in self.shapes[l].items():
                for comp in components(bs):
                    self.polys.append((i, net, comp))

    def overlaps(self):
        """{(top, net_top, bot, net_bot): fF}"""
        out = {}
        for i, bot in enumerate(self.order):
            for j in range(i + 1, len(self.order)):
                top = self.order[j]
                c = self.t.overlap.get((top, bot))
                if c is None:
                    continue
                shield = [b for k in range(i + 1, j) for bs in self.shapes[self.order[k]].values() for b in bs]
                for nb, bb in self.shapes[bot].items():
                    for nt, tb in self.shapes[top].items():
                        if nb == nt:
                            continue
                        a = area_and(tb, bb, shield)
                        if a > 0:
                            out[top, nt, bot, nb] = a * self.dbu ** 2 * c / 1000.0
        return out

    def lateral(self):
        """(sidewall {(layer, net, othernet): fF}, fringe {(inside, net, outside, net): (low, high)}); low omits
        pieces below the documented 0.0001 fF cut-off, whatever way the edge is divided into pieces"""
        side = defaultdict(float)
        fr = defaultdict(lambda: [0.0, 0.0])
        H = int(self.halo / self.dbu) + 2      # the halo, rounded up outwards
        for pi, (i, net, boxes) in enumerate(self.polys):
            lname = self.order[i]
            for e in outline(boxes):
                L = e[3] - e[2]
                near = []
                for pj, (k, n2, bs) in enumerate(self.polys):
                    for b in bs:
                        x0, x1, y0, y1 = local(b, e)
                        x0, x1 = max(x0, 0), min(x1, L)
                        y0, y1 = max(y0, 0), min(y1, H)
                        if x0 < x1 and y0 < y1:
                            near.append((pj, k, n2, x0, x1, y0, y1))
                xs = sorted({v for q in near for v in (q[3], q[4])})
                for xa, xb in zip(xs, xs[1:]):
                    col = [q for q in near if q[3] <= xa and xb <= q[4]]
                    if not col:
                        continue
                    w_um = (xb - xa) * self.dbu
                    foreign = [(q[5], q[2]) for q in col if q[1] == i and q[0] != pi]
                    own = [q[5] for q in col if q[0] == pi]
                    lat = None
                    if foreign:
                        d, n2 = min(foreign)
                        lat = d
                        if n2 != net and lname in self.t.sidewall:
                            c, off = self.t.sidewall[lname]
                            side[lname, net, n2] += w_um * c / (d * self.dbu + off) / 2.0 / 1000.0
                    if own:
                        lat = min(own) if lat is None else min(lat, min(own))
                    bylayer = defaultdict(lambda: defaultdict(list))
                    for q in col:
                        bylayer[q[1]][q[2]].append((q[5], q[6]))
                    for k, nets in bylayer.items():
                        if k == i:
                            continue
                        oname = self.order[k]
                        c = self.t.overlap.get((lname, oname))
                        if c is None:
                            c = self.t.overlap.get((oname, lname))
                        sc = self.t.side.get((lname, oname))
                        if c is None or sc is None:
                            continue
                        sh = []
                        if lat is not None:
                            sh.append((lat, 10 ** 12))
                        for m in range(min(i, k) + 1, max(i, k)):
                            for ivs in bylayer.get(m, {}).values():
                                sh.extend(ivs)
                        al = c * 0.02
                        norm = (2 / math.pi) * math.atan(al * self.halo)
                        for n2, ivs in nets.items():
                            if n2 == net:
                                continue
                            for a, b in minus_iv(ivs, sh):
                                f = (2 / math.pi) * (math.atan(al * b * self.dbu) - math.atan(al * a * self.dbu))
                                if self.scale and norm < 1.0:
                                    f /= norm
                                v = f * w_um * sc / 1000.0
                                key = (lname, net, oname, n2)
                                fr[key][1] += v
                                if v > 0.0001:
                                    fr[key][0] += v
                                # pieces <= threshold only count for the upper bound
        return dict(side), {k: tuple(v) for k, v in fr.items()}
