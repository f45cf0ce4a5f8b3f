"""C19: marker report shows each extracted element at its place; repair keeps reports loadable."""
import itertools
import gzip
import math
import os
import re
import shutil
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, caps, pylvs, rcx, rdbx, rnet

chk = core.Check('C19', rule='every layout of the alphabet x net names (report against the results and the layout); every set of lost '
                 'categories of every report of the alphabet (repair); outcomes are distinct sets of groups')
T = chk.thorough
M = rcx.mods()
kdb = M.kdb
import klayout.rdb as rdb
from klayout_pex.klayout.repair_rdb import repair_rdb
from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
from klayout_pex import log as kpexlog
cli.preload()
V = core.Violation
SKY, IHP = pylvs.SKY, pylvs.IHP
PDKS = (SKY, IHP)
SUBS = 'VSUBS'


def work():
    w = f"{chk.wdir}/c19_{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    return w


def load(path, what):
    """KLayout loads the report, and sees what the independent reader sees"""
    r = rdbx.Rdb(path)
    db = rdb.ReportDatabase('')
    try:
        db.load(path)
    except Exception as e:
        raise V(f"{what}: KLayout cannot load the report: {e}")
    cnt = {}

    def walk(c, pre):
        p = pre + (c.name(),)
        n = len(list(db.each_item_per_category(c.rdb_id())))
        if n:
            cnt[p] = n
        for s in c.each_sub_category():
            walk(s, p)
    for c in db.each_category():
        walk(c, ())
    mine = {p: len(x) for p, x in r.by().items()}
    if cnt != mine:
        raise V(f"{what}: KLayout finds the markers {cnt}, the file has {mine}")
    for p in mine:
        if p not in r.cats:
            raise V(f"{what}: markers of the category {p}, which does not exist")
    if len(set(r.cats)) != len(r.cats):
        raise V(f"{what}: duplicate categories {sorted(p for p in set(r.cats) if r.cats.count(p) > 1)}")
    return r


# ------------------------------------------------------------------ capacitances
def children(r, p):
    return [c for c in r.cats if len(c) == len(p) + 1 and c[:len(p)] == p]


def groups(r, root, levels, what):
    """{key: [(group path, value in fF, title)]} of a table; levels: regular expression per level below the root"""
    res = {}

    def rec(p, key, lv):
        if not lv:
            cs = children(r, p)
            num = []
            for c in cs:
                m = re.match(r'^#(\d+):? ', c[-1])
                v = re.search(r'(\d[\d.e+-]*) fF$', c[-1])
                if not m or not v:
                    raise V(f"{what}: marker group {c}")
                num.append(int(m.group(1)))
                res.setdefault(key, []).append((c, float(v.group(1)), c[-1]))
            if sorted(num) != list(range(1, len(num) + 1)):
                raise V(f"{what}: groups of {p} are numbered {sorted(num)}")
            return
        for c in children(r, p):
            m = re.match(lv[0], c[-1], re.S)
            if not m:
                raise V(f"{what}: category {c}")
            rec(c, key + m.groups(), lv[1:])
    if (root,) in r.cats:
        rec((root,), (), levels)
    return res


def match(table, found, what):
    """table {key: [value]}; found {key: [(path, value, title)]}"""
    for k in set(table) | set(found):
        a = sorted(round(v, 3) for v in table.get(k, []))
        b = sorted(v for _, v, _ in found.get(k, []))
        if len(a) != len(b) or any(abs(x - y) > 1e-9 for x, y in zip(a, b)):
            raise V(f"{what} {k}: extracted are {table.get(k, [])} fF, the report has {[t for _, _, t in found.get(k, [])]}")


def on_boundary(edge, reg):
    e = kdb.Edges()
    e.insert(kdb.Edge(*edge[0], *edge[1]))
    m = kdb.Region()
    for p in reg.each():
        m.insert(p)
    b = m.merged().edges()
    # (also where the boundary of the merged polygons is covered by pieces of the edge)
    return (e - b).is_empty() and edge[0] != edge[1]


def length(e):
    return math.hypot(e[1][0] - e[0][0], e[1][1] - e[0][1])


def check_caps(r, res, drawn, dbu, pdk, scale, halo, top, what):
    t = caps.reftech(pdk)
    halo_um = t.halo_um if halo is None else halo
    c = list(res.cell_extraction_results.values())[0]
    by = r.by()
    used = set()

    def net(layer, n):
        return drawn.get(layer, {}).get(n, kdb.Region())

    def inside(reg, layer, n):
        return layer == SUBS or (reg - net(layer, n)).is_empty()

    def get(p, kind):
        if p not in by:
            raise V(f"{what}: no marker for {p}")
        used.add(p)
        for cell, _ in by[p]:
            if cell != top:
                raise V(f"{what}: marker {p} is in the cell {cell}")
        return rdbx.shapes([v for _, v in by[p]], dbu)
    # overlap
    tab = {(k.layer_top, k.layer_bot, f"{k.net_top} – {k.net_bot}"): [x.cap_value for x in l] for k, l in c.overlap_table.items()}
    nets = {(k.layer_top, k.layer_bot, f"{k.net_top} – {k.net_bot}"): (k.net_top, k.net_bot) for k in c.overlap_table}
    f = groups(r, '[C] Overlap', [r'^top_layer=(.*)$', r'^bot_layer=(.*)$', r'^(.*)$'], what)
    match(tab, f, f"{what}: overlap")
    for k, gs in f.items():
        nt, nb = nets[k]
        for p, v, title in gs:
            tp, bt, ar = (get(p + (n,), 'polygon')[0] for n in ('Top Polygon', 'Bottom Polygon', 'Overlap Area'))
            if tp.is_empty() or bt.is_empty() or not inside(tp, k[0], nt) or not inside(bt, k[1], nb) or not (ar - (tp & bt)).is_empty():
                raise V(f"{what}: overlap {k} {title}: top polygon {tp}, bottom polygon {bt}, area {ar} do not fit the layout")
            val = ar.merged().area() * dbu ** 2 * t.overlap[k[0], k[1]] / 1000.0
            if abs(val - v) > 0.00051 + 1e-6 * v:
                raise V(f"{what}: overlap {k}: the area {ar} is {val} fF, not {v} fF")
    # sidewall
    tab = {(k.layer, k.net1, k.net2): [x.cap_value for x in l] for k, l in c.sidewall_table.items()}
    f = groups(r, '[C] Sidewall', [r'^layer=(.*)$', r'^inside=(.*)$', r'^outside=(.*)$'], what)
    match(tab, f, f"{what}: sidewall")
    for k, gs in f.items():
        for p, v, title in gs:
            _, ed = get(p, 'edge')
            m = re.search(r'len ([\d.e+-]+) µm, distance ([\d.e+-]+) µm', title)
            if len(ed) != 2 or not m:
                raise V(f"{what}: sidewall {k} {title}: markers {ed}")
            L, D = float(m.group(1)), float(m.group(2))
            i, o = ed if on_boundary(ed[0], net(k[0], k[1])) else ed[::-1]
            if not on_boundary(i, net(k[0], k[1])) or not on_boundary(o, net(k[0], k[2])):
                raise V(f"{what}: sidewall {k} {title}: the edges {ed} are not on the boundaries of the two nets")
            # distance of the (parallel) lines, common length
            dx, dy = (i[1][0] - i[0][0]) / length(i), (i[1][1] - i[0][1]) / length(i)
            dist = {round(abs((q[0] - i[0][0]) * dy - (q[1] - i[0][1]) * dx), 3) for q in o}
            a = sorted((q[0] - i[0][0]) * dx + (q[1] - i[0][1]) * dy for q in o)
            if abs(length(i) * dbu - L) > 1e-6 or dist != {round(D / dbu, 3)} or a[0] > 0.5 or a[1] < length(i) - 0.5:
                raise V(f"{what}: sidewall {k} {title}: the edges are {ed}")
            cs, off = t.sidewall[k[0]]
            val = L * cs / (D + off) / 2000.0
            if abs(val - v) > 0.00051:
                raise V(f"{what}: sidewall {k} {title} should have {val} fF")
    # fringe
    tab = {(k.layer_inside, k.net_inside, k.layer_outside, k.net_outside): [x.cap_value for x in l] for k, l in c.sideoverlap_table.items()}
    f = groups(r, '[C] Fringe / Side Overlap', [r'^inside_layer=(.*)$', r'^inside_net=(.*)$', r'^outside_layer=(.*)$', r'^outside_net=(.*)$'], what)
    match(tab, f, f"{what}: fringe")
    for k, gs in f.items():
        li, ni, lo, no = k
        for p, v, title in gs:
            _, ed = get(p + ('Inside Edge',), 'edge')
            po, _ = get(p + ('Outside Polygon',), 'polygon')
            if p + ('Lateral Shield',) in by:
                get(p + ('Lateral Shield',), 'polygon')
            if len(ed) != 1 or (li != SUBS and not on_boundary(ed[0], net(li, ni))):
                raise V(f"{what}: fringe {k} {title}: the edge {ed} is not on the boundary of the net")
            if po.is_empty() or not inside(po, lo, no):
                raise V(f"{what}: fringe {k} {title}: {po} is not a part of the other net")
            e = ed[0]
            dx, dy = (e[1][0] - e[0][0]) / length(e), (e[1][1] - e[0][1]) / length(e)
            pts = [(q.x, q.y) for g in po.each() for q in g.each_point_hull()]
            d = [-(q[0] - e[0][0]) * dy + (q[1] - e[0][1]) * dx for q in pts]       # left of the edge
            if po.merged().area() and all(g.is_box() for g in po.each()):
                far, near = max(d), min(d)
                if near < -0.5 or far * dbu > halo_um + 2.1 * dbu:
                    raise V(f"{what}: fringe {k} {title}: {po} is {near} to {far} from the edge {e}")
                cc = t.overlap.get((li, lo)) or t.overlap.get((lo, li))
                al = cc * 0.02
                norm = 2 / math.pi * math.atan(al * halo_um)
                q = 2 / math.pi * (math.atan(al * far * dbu) - math.atan(al * max(near, 0) * dbu))
                if scale and norm < 1:
                    q /= norm
                val = q * length(e) * dbu * t.side[li, lo] / 1000.0
                if abs(val - v) > 0.00051 + 1e-6 * v:
                    raise V(f"{what}: fringe {k} {title}: edge {e} and polygon {po} give {val} fF")
    rest = [p for p in by if p[0].startswith('[C]') and p not in used and p[0] != '[C] Edge Neighborhood Visitor']
    if rest:
        raise V(f"{what}: markers of {rest} belong to nothing extracted")
    return tuple(sorted((root, len(gs)) for root in ('[C] Overlap', '[C] Sidewall', '[C] Fringe / Side Overlap')
                        for gs in [[p for p in r.cats if p[0] == root]]))


def drawn_of(l2n, pdk, rects):
    t = caps.reftech(pdk)
    c = l2n.netlist().circuit_by_name('TOP')
    out = {}
    for lay in {q[0] for q in rects}:
        for n in c.each_net():
            s = l2n.shapes_of_net(n, l2n.layer_by_name(lay), True)
            if not s.is_empty():
                d = out.setdefault(t.canon_of_computed[lay], {})
                d[n.expanded_name()] = (d.get(n.expanded_name(), kdb.Region()) + s).merged()
    return out


def cap_body(case):
    pdk, dbu, scale, halo, rects, debug = case
    l2n = caps.lvs(pdk, dbu, rects)
    w = work()
    path = w + '/r.rdb.gz'
    if debug:
        sys.stdout.flush()
        fd = os.dup(1)
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        kpexlog.set_log_level(kpexlog.LogLevel.DEBUG)
    try:
        res = rcx.extract(l2n, pdk, 'CC', scale, halo, report=path)
    finally:
        if debug:
            kpexlog.set_log_level(kpexlog.LogLevel.SUBPROCESS)
            core.quiet()
            sys.stdout.flush()
            os.dup2(fd, 1)
            os.close(fd)
            os.close(nul)
    what = f"{pdk}, {rects}"
    r = load(path, what)
    o = check_caps(r, res, drawn_of(l2n, pdk, rects), dbu, pdk, scale, halo, 'TOP', what)
    return {'reports': 1}, (pdk, o)


NAMES = [('A', 'B'), ("it's", 'x.y'), ('a\\b', 'a b'), ('A', 'a'), ('#1', '#1: 2 fF'), ('<x>&"y"', 'A – B'), ('ü', '信号'), ('A/B', 'A,B'),
         ('inside=A', 'A;B'), ("'q'", '"q"'), ('\\303', '$x'), ('-1', '[C] Overlap'), ("a'.'b", '.'), (' lead', 'trail ')]


def cap_cases():
    U = 1000
    for pdk in PDKS:
        ms = [m for m, _, _ in pylvs.LEVELS[pdk]]
        pairs = list(zip(ms, ms[1:])) + [(m, m) for m in ms] + [(a, b) for a, b in zip(ms, ms[2:])]
        for a, b in pairs:
            for dx, dy, w, h in ((0, 0, 2, 1), (1, 1, 2, 2), (3, 0, 1, 2), (0, 2, 4, 1), (-2, 3, 3, 1), (3, -1, 2, 4)):
                if a == b and not (dx >= 3 or dy >= 2):
                    continue
                yield (pdk, 0.001, True, None, ((a, 'A', 0, 0, 2 * U, U), (b, 'B', dx * U, dy * U, (dx + w) * U, (dy + h) * U)), False)
        # three nets, several contributions per pair
        for a, b, c in list(zip(ms, ms, ms[1:])) + list(zip(ms, ms[1:], ms[1:])) + list(zip(ms, ms[1:], ms[2:])):
            for x in (0, 1, 3):
                yield (pdk, 0.001, True, None, ((a, 'A', 0, 0, U, 6 * U), (b, 'B', 2 * U, U, 3 * U, 2 * U), (b, 'B', 2 * U, 4 * U, 3 * U, 5 * U),
                                               (c, 'C', (4 if b == c else x) * U, 0, (5 if b == c else x + 4) * U, 3 * U)), False)
                yield (pdk, 0.005, False, 5, ((a, 'A', 0, 0, 200, 1200), (b, 'B', 400, 200, 600, 400), (b, 'A', 400, 800, 600, 1000),
                                            (c, 'C', (4 if b == c else x) * 200, 0, (5 if b == c else x + 4) * 200, 600)), False)
        for n1, n2 in NAMES:
            for a, b in ((ms[1], ms[2]), (ms[3], ms[3])):
                for debug in (False, True):
                    yield (pdk, 0.001, True, None, ((a, n1, 0, 0, 2 * U, U), (b, n2, U, 1500, 4 * U, 3 * U), (b, n2, U, 4 * U, 4 * U, 5 * U)), debug)


# ------------------------------------------------------------------ resistances
def res_body(case):
    pdk, i, kind, names, mode, (X0, Y0) = case
    U = 1000
    lv = pylvs.LEVELS[pdk]
    m, _, pin = lv[i]
    sh, lab = {}, []

    def wire(net, y):
        if kind == 'wire':
            sh.setdefault(m, []).append(kdb.Box(0, y, 10 * U, y + U))
        elif kind == 'L':
            sh.setdefault(m, []).append(kdb.Polygon([kdb.Point(*p) for p in ((0, y), (0, y + 3 * U), (U, y + 3 * U), (U, y + U), (10 * U, y + U), (10 * U, y))]))
        else:
            sh.setdefault(m, []).append(kdb.Box(0, y, 5 * U, y + U))
            s = pylvs.STACK[pdk]
            k = s.index(m)
            sh.setdefault(s[k + 1], []).append(kdb.Box(4 * U + 300, y + 300, 4 * U + 700, y + 700))
            sh.setdefault(s[k + 2], []).append(kdb.Box(4 * U, y, 10 * U, y + U))
        for x in ((200, 9000) if kind != 'via' else (200,)):
            sh.setdefault(pin, []).append(kdb.Box(x, y + 300, x + 100, y + 400))
            lab.append((m, net, x + 50, y + 350))
        if kind == 'via':
            m2, _, p2 = lv[i + 1]
            sh.setdefault(p2, []).append(kdb.Box(9000, y + 300, 9100, y + 400))
            lab.append((m2, net, 9050, y + 350))
    for k, n in enumerate(names):
        wire(n, 5 * U * k)
    for l in sh:
        sh[l] = [x.moved(X0, Y0) for x in sh[l]]
    lab = [(l, n, x + X0, y + Y0) for l, n, x, y in lab]
    w = work()
    l2n = pylvs.make(pdk, sh, lab, join=True)
    path = w + '/r.rdb.gz'
    res = rcx.extract(l2n, pdk, mode, report=path)
    what = f"{pdk}, {m}, {kind}, nets {names}, mode {mode}, origin {X0, Y0}"
    r = load(path, what)
    by = r.by()
    c = list(res.cell_extraction_results.values())[0]
    if not c.r_extraction_result.networks:
        raise core.Violation(f"{what}: no resistor network was extracted")
    cnt = []
    total = 0
    root = ('[R] Extraction Result', 'Networks')
    if {p[-1] for p in children(r, root)} != {f"Net {n.net_name}" for n in c.r_extraction_result.networks}:
        raise V(f"{what}: networks {children(r, root)} in the report")
    for nw in c.r_extraction_result.networks:
        p = root + (f"Net {nw.net_name}",)
        node = {}

        def rows(sub):
            return [(q, *rdbx.shapes([v], 0.001)) for q in r.cats if len(q) == len(p) + 2 and q[:len(p)] == p and q[-2] == sub
                    for cell, v in by.get(q, [])]
        free = rows('Nodes')
        for n in nw.nodes:
            if n.location.HasField('point'):
                x, y = n.location.point.x, n.location.point.y
            else:
                b = n.location.box
                x, y = (b.lower_left.x + b.upper_right.x) / 2, (b.lower_left.y + b.upper_right.y) / 2
            node[n.node_id] = (n, x, y)
            ok = [f for f in free if f[0][-1].startswith(n.node_name + ',') and n.layer_name in f[0][-1] and
                  abs(f[1].bbox().center().x - x) <= 1 and abs(f[1].bbox().center().y - y) <= 1]
            if not ok:
                raise V(f"{what}: no marker of the node {n.node_name} at {x}, {y}: {free}")
            free.remove(ok[0])
            k = [i for i, nn in enumerate(names) if nn == nw.net_name][0]
            if not (0 <= x - X0 <= 10 * U and 5 * U * k <= y - Y0 <= 5 * U * k + 3 * U):
                raise V(f"{what}: the node {n.node_name} of {nw.net_name} is at {x}, {y}")
        if free:
            raise V(f"{what}: markers of nodes which do not exist: {free}")
        free = rows('Elements')
        for e in nw.elements:
            (a, ax, ay), (b, bx, by_) = node[e.node_a.node_id], node[e.node_b.node_id]

            def fits(f):
                t = f[0][-1]
                v = re.search(r': ([\d.e+-]+) (mΩ|Ω)$', t)
                if not v or a.node_name not in t or b.node_name not in t:
                    return False
                ohm = float(v.group(1)) * (1e-3 if v.group(2) == 'mΩ' else 1)
                if abs(ohm - e.resistance) > (0.00051 if v.group(2) == 'Ω' else 1e-9):
                    return False
                bb = f[1].bbox()
                if f[1].is_empty():      # nothing to be seen of a via whose two nodes have the same place
                    return (ax, ay) == (bx, by_)
                return all(abs(p - q) <= 6 for p, q in ((bb.left, min(ax, bx)), (bb.right, max(ax, bx)), (bb.bottom, min(ay, by_)), (bb.top, max(ay, by_))))
            ok = [f for f in free if fits(f)]
            if not ok:
                raise V(f"{what}: no marker of the {e.resistance} Ohm between {a.node_name} ({ax}, {ay}) and {b.node_name} ({bx}, {by_}): {free}")
            free.remove(ok[0])
        if free:
            raise V(f"{what}: markers of resistances which do not exist: {free}")
        cnt.append((len(nw.nodes), len(nw.elements)))
    pins = [q for q in by if q[:2] == ('[R] Extraction Request', 'Pins') and q[-1] == 'label point']
    got = [(q[2], b.bbox().center().x, b.bbox().center().y) for q in pins for _, v in by[q] for b in [rdbx.shapes([v], 0.001)[0]]]
    left = list(got)
    for _, n, x, y in lab:
        ok = [g for g in left if g[0].startswith(f"{n} (net {n} on layer ") and abs(g[1] - x) <= 1 and abs(g[2] - y) <= 1]
        if not ok:
            raise V(f"{what}: no marker of the pin {n} at {x}, {y}: {got}")
        left.remove(ok[0])
    if left:
        raise V(f"{what}: markers of pins which do not exist: {left}")
    return {'reports': 1}, (pdk, kind, tuple(cnt))


def res_cases():
    for pdk in PDKS:
        for i in range(len(pylvs.LEVELS[pdk])):
            for kind in ('wire', 'L', 'via'):
                if kind == 'via' and i + 1 >= len(pylvs.LEVELS[pdk]):
                    continue
                for mode in ('R', 'RC'):
                    for o in ((0, 0), (-4000, -20000)) if not T else ((0, 0), (-4000, -20000), (-30000, 1), (700, -2500)):
                        yield (pdk, i, kind, ('A', 'B'), mode, o)
        for n1, n2 in NAMES:
            for kind in ('wire', 'via'):
                yield (pdk, 2, kind, (n1, n2), 'R', (0, 0))


# ------------------------------------------------------------------ messages: every small request and result
from google.protobuf import text_format
import klayout_pex_protobuf.kpex.request.pex_request_pb2 as request_pb2
import klayout_pex_protobuf.kpex.result.pex_result_pb2 as result_pb2
POLY = [((0, 0), (0, 200), (300, 200), (300, 0)), ((-900, -800), (-900, -500), (-700, -500), (-700, -600), (-500, -600), (-500, -800)), ((1000, -50), (1100, 100), (1200, -50))]
PT = [(0, 0), (-1500, 40), (700, -800), (2000, 2000)]


def add_poly(reg, k, net=''):
    q = reg.polygons.add(net=net)
    for x, y in POLY[k]:
        q.hull_points.add(x=x, y=y)


def add_terminal(dst, t, exp, pre, own):
    name, net, layers = t
    p = dst.add(name=name, net_name=net)
    for ln, polys in layers:
        l = p.region_by_layer.add()
        l.layer.canonical_layer_name = ln
        for k in polys:
            add_poly(l.region, k, net)
            exp.append((pre, own + (name, net, ln), k))


def add_pin(dst, t, exp, pre):
    label, net, ln, k = t
    p = dst.add(label=label, net_name=net)
    p.layer.canonical_layer_name = ln
    p.label_point.x, p.label_point.y = PT[k]
    exp.append((pre, (label, net, ln), PT[k]))


def word(t, s):
    return re.search(r'(?<!\w)' + re.escape(t) + r'(?!\w)', s) is not None


REQ, RESULT = '[R] Extraction Request', '[R] Extraction Result'


def message_body(case):
    devices, pins, nets, networks = case
    exp = []
    q = request_pb2.RExtractionRequest()
    for name, cls, ts in devices:
        d = q.devices.add(device_name=name, device_class_name=cls)
        d.parameters.add(name='W', value=0.5)
        for t in ts:
            add_terminal(d.terminals, t, exp, (REQ, 'Devices'), (name, cls))
    for t in pins:
        add_pin(q.pins, t, exp, (REQ, 'Pins'))
    for net, ts, ps, ls in nets:
        n = q.net_extraction_requests.add(net_name=net)
        pre = (REQ, 'Network Extraction Request', f"Net {net}")
        for t in ts:
            add_terminal(n.device_terminals, t, exp, pre + ('Device Terminals',), ())
        for t in ps:
            add_pin(n.pins, t, exp, pre + ('Pins',))
        for ln, polys in ls:
            l = n.region_by_layer.add()
            l.layer.canonical_layer_name = ln
            for k in polys:
                add_poly(l.region, k, net)
                exp.append((pre + ('Layer Regions',), (ln,), k))
    res = result_pb2.RExtractionResult()
    for net, nodes, els in networks:
        nw = res.networks.add(net_name=net)
        pre = (RESULT, 'Networks', f"Net {net}")
        at = {}
        for i, (name, port, ln, kind, k) in enumerate(nodes):
            x, y = PT[k]
            n = nw.nodes.add(node_id=i + 7, node_name=name, net_name=port, layer_name=ln)
            n.location.kind = {'p': 1, 'b': 3}[kind]
            if kind == 'p':
                n.location.point.x, n.location.point.y = x, y
            else:
                n.location.box.lower_left.x, n.location.box.lower_left.y, n.location.box.upper_right.x, n.location.box.upper_right.y = x - 30, y - 20, x + 30, y + 20
            exp.append((pre + ('Nodes',), (name, ln), (x, y) if kind == 'p' else kdb.Box(x - 30, y - 20, x + 30, y + 20)))
            at[i] = (name, ln, x, y)
        for a, b, ohm in els:
            e = nw.elements.add(resistance=ohm)
            e.node_a.node_id, e.node_b.node_id = a + 7, b + 7
            exp.append((pre + ('Elements',), tuple(at[a][:2] + at[b][:2]), (at[a][2:], at[b][2:], ohm)))
    w = work()
    rep = ExtractionReporter('TOP', 0.001)
    rep.output_rex_request(request=q)
    rep.output_rex_result(result=res)
    rep.save(w + '/m.rdb')
    what = f"request {text_format.MessageToString(q, as_one_line=True)}, result {text_format.MessageToString(res, as_one_line=True)}"
    r = load(w + '/m.rdb', what)
    items = [(p, *rdbx.shapes([v], 0.001)) for p, c, v in r.items]
    roots = {e[0] for e in exp}

    def fits(e, it):
        pre, tokens, g = e
        p, reg, edges = it
        if p[:len(pre)] != pre or edges:
            return False
        text = ' / '.join(p[len(pre):])
        if not all(word(t, text) for t in tokens if t):
            return False
        bb = reg.bbox()
        if isinstance(g, int):
            return (reg ^ kdb.Region(kdb.Polygon([kdb.Point(*x) for x in POLY[g]]))).is_empty()
        if isinstance(g, kdb.Box):
            return (reg ^ kdb.Region(g)).is_empty()
        if len(g) == 2:
            return abs(bb.left + bb.right - 2 * g[0]) <= 2 and abs(bb.bottom + bb.top - 2 * g[1]) <= 2 and 0 < bb.width() <= 60 and 0 < bb.height() <= 60
        (ax, ay), (bx, by_), ohm = g
        v = re.search(r': ([\d.e+-]+) (mΩ|Ω)$', text)
        if not v:
            return False
        have = float(v.group(1)) * (1e-3 if v.group(2) == 'mΩ' else 1)
        if abs(have - ohm) > (0.00051 if v.group(2) == 'Ω' else 1e-9):
            return False
        return all(abs(x - y) <= 6 for x, y in ((bb.left, min(ax, bx)), (bb.right, max(ax, bx)), (bb.bottom, min(ay, by_)), (bb.top, max(ay, by_))))
    if len(items) != len(exp):
        raise V(f"{what}: {len(items)} markers, expected {len(exp)}: {[(p, str(g)) for p, g, _ in items]}")
    ok = [[j for j, it in enumerate(items) if fits(e, it)] for e in exp]
    owner = {}

    def assign(i, seen):
        for j in ok[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or assign(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    for i, e in enumerate(exp):
        if not assign(i, set()):
            raise V(f"{what}: no marker for {e}: {[(p, str(g)) for p, g, _ in items]}")
    return {'messages': 1, 'markers': len(items)}, (len(devices), len(pins), len(nets), len(networks), len(items))


def message_cases():
    LAYS = [(), (('nsdm', (0,)),), (('nsdm', (1,)), ('poly', (0,))), (('met1', (0, 1)),), (('nsdm', (2, 0)), ('met1', (1,))), (('nsdm', (0,)), ('poly', (0,)), ('met1', (2,)))]
    TS = [(n, net, l) for n in ('S', 'D') for net in ('A', 'net 1', '') for l in LAYS]
    for t in TS:
        yield ((('M1', 'nfet', (t,)),), (), (), ())
        yield ((), (), ((t[1] or 'X', (t,), (), ()),), ())
    for a, b in itertools.product(TS, repeat=2):
        if a[0] < b[0] or (T and a[0] != b[0]):
            yield ((('M1', 'nfet', (a, b)),), (), (), ())
        if a[1] == b[1] == 'A':       # terminals of two devices on a net
            yield ((('M1', 'nfet', (a,)), ('M2', 'pfet', (b,))), (), (('A', (a, b), (), ()),), ())
    PS = [(l, n, ln, k) for l in ('A', 'in') for n in ('A', 'B') for ln in ('met1', 'li1') for k in range(len(PT))]
    for p in PS:
        yield ((), (p,), (), ())
    for a, b in itertools.combinations(PS, 2):
        yield ((), (a, b), (), ())
        if a[1] == b[1]:
            yield ((), (), ((a[1], (), (a, b), ()),), ())
    for l1, l2 in itertools.product(LAYS, repeat=2):
        yield ((), (), (('A', (), (), l1), ('B', (), (), l2)), ())
    OHM = (0.0, 1e-6, 0.0004, 0.001, 0.5, 12.3456, 1e6)
    NODES = [(n, 'A', ln, kind, k) for n, ln, kind, k in itertools.product(('A', '$1.2'), ('met1',), 'pb', range(len(PT)))] + [('v', '', 'via1', 'b', k) for k in range(len(PT))]
    for n in NODES:
        yield ((), (), (), (('A', (n,), ()),))
    for a, b in itertools.permutations(NODES, 2):
        if PT[a[4]] != PT[b[4]]:
            for o in OHM[::3] if not T else OHM:
                yield ((), (), (), (('A', (a, b), ((0, 1, o),)),))
    tri = (('A', 'A', 'met1', 'p', 0), ('B', '', 'met1', 'b', 1), ('C', '', 'met2', 'b', 2))
    prs = [(0, 1), (1, 0), (1, 2), (0, 2)]
    for n in range(4):
        for ab in itertools.product(prs, repeat=n):
            for os_ in itertools.product(OHM[2:6:3], repeat=n) if not T else itertools.product(OHM[1::2], repeat=n):
                yield ((), (), (), (('A', tri, tuple((a, b, o) for (a, b), o in zip(ab, os_))),))
    for o1, o2 in itertools.product(OHM, repeat=2):
        yield ((), (), (), (('A', tri, ((0, 1, o1),)), ('B', tri[1:], ((0, 1, o2),))))


# ------------------------------------------------------------------ repair
COMP = ['A', 'b c', 'x.y', "it's", 'a\\b', '– ↔ Ω', '#1: 2 fF', ' s ', '<&>', '"q"', "'", '.', '\\303', "a'b\\", '[C]', '1', '_x', 'x-y', 'tab\there']


def synth(path, tree):
    """tree: list of (path tuple, number of markers)"""
    db = rdb.ReportDatabase('r')
    cell = db.create_cell('TOP')
    for p, n in tree:
        c = None
        for x in p:
            c = db.create_category(c, x) if c is not None else db.create_category(x)
        for i in range(n):
            db.create_items(cell.rdb_id(), c.rdb_id(), kdb.CplxTrans(0.001), [kdb.Polygon(kdb.Box(i, 0, i + 10, 10 * len(p)))])
    db.save(path)


def lose(path, out, lost, container=False):
    """writes the report without the categories of the set (and those below them)"""
    d = open(path, 'rb').read()
    root = ET.fromstring(gzip.decompress(d) if d[:2] == b'\x1f\x8b' else d)

    def walk(el, pre):
        cs = el.find('categories')
        if cs is None:
            return
        for c in list(cs.findall('category')):
            p = pre + (c.findtext('name') or '',)
            if p in lost:
                cs.remove(c)
            else:
                walk(c, p)
        if container and not len(cs):
            el.remove(cs)
    walk(root, ())
    x = b"<?xml version='1.0' encoding='utf-8'?>\n" + ET.tostring(root, encoding='utf-8')
    with (gzip.open(out, 'wb') if out.endswith('.gz') else open(out, 'wb')) as f:
        f.write(x)


def repair_check(orig, w, lost, container, gz, what):
    b = f"{w}/lost.rdb" + ('.gz' if gz else '')
    lose(orig, b, lost, container)
    before = open(b, 'rb').read()
    repair_rdb(b)
    if open(b, 'rb').read() != before:
        raise V(f"{what}: the broken report itself was changed")
    n = b + '.repair.xml'
    if not os.path.exists(n):
        raise V(f"{what}: nothing was written")
    r = load(n, what)
    o = rdbx.Rdb(orig)
    if sorted(r.items) != sorted(o.items):
        raise V(f"{what}: markers {r.items} after the repair, {o.items} before")
    if r.cells != o.cells:
        raise V(f"{what}: cells {r.cells}")
    left = [p for p in o.cats if not any(p[:i] in lost for i in range(1, len(p) + 1))]
    need = {p[:i] for p, _, _ in o.items for i in range(1, len(p) + 1)}
    if set(r.cats) != set(left) | need:
        raise V(f"{what}: categories {sorted(r.cats)} after the repair, expected {sorted(set(left) | need)}")


def repair_body(case):
    tree, lost, container, gz = case
    w = work()
    p = w + '/o.rdb'
    synth(p, tree)
    try:
        repair_check(p, w, set(lost), container, gz, f"report with {tree}, lost {lost}")
    except (V, core.HarnessError):
        raise
    except Exception as e:
        raise V(f"report with {tree}, lost {lost}: the repair fails with {type(e).__name__}: {e}")
    return {'repairs': 1}, (len(tree), len(lost), container, gz)


def subsets(cats):
    for k in range(len(cats) + 1):
        yield from itertools.combinations(cats, k)


def repair_cases():
    for a in COMP:
        for tree in (((('A0',), 1), (('A0', a), 1)), (((a,), 1), ((a, 'B0'), 2)), (((a,), 0), ((a, a), 1), ((a, a, a), 1))):
            cats = [p for p, _ in tree]
            for lost in subsets(cats):
                for gz in (False, True):
                    yield (tree, lost, False, gz)
    for a, b in itertools.combinations(COMP, 2):
        tree = (((a,), 1), ((b,), 1), (('P',), 0), (('P', a), 1), (('P', b), 2))
        cats = [p for p, _ in tree]
        for lost in subsets(cats) if T else [(), ((a,),), ((b,),), ((a,), (b,)), (('P', a),), (('P', b),), (('P',),), tuple(cats)]:
            yield (tree, lost, False, True)
    tree = ((('A',), 1), (('A', 'x'), 1), (('A', 'x', 'y z'), 2), (('B',), 0), (('B', 'x'), 1), (('C', 'd'), 0))
    cats = [('A',), ('A', 'x'), ('A', 'x', 'y z'), ('B',), ('B', 'x'), ('C',), ('C', 'd')]
    for lost in subsets(cats):
        for container in (False, True):
            yield (tree, lost, container, True)


def real_body(case):
    pdk, names, mode, gz = case
    U = 1000
    ms = [m for m, _, _ in pylvs.LEVELS[pdk]]
    rects = ((ms[1], names[0], 0, 0, 2 * U, U), (ms[2], names[1], U, 1500, 4 * U, 3 * U), (ms[2], names[0], U, 4 * U, 4 * U, 5 * U))
    w = work()
    p = w + '/r.rdb.gz'
    l2n = caps.lvs(pdk, 0.001, rects)
    rcx.extract(l2n, pdk, mode, report=p)
    cats = rdbx.Rdb(p).cats
    sets = [set(), set(cats)] + [{c} for c in cats] + [{c for c in cats if len(c) == n} for n in range(1, 8)]
    if T:
        sets += [set(x) for x in itertools.combinations(cats, 2)]
    for lost in sets:
        try:
            repair_check(p, w, lost, False, gz, f"extraction of {rects}, lost {sorted(lost)}")
        except (V, core.HarnessError):
            raise
        except Exception as e:
            raise V(f"extraction of {rects}, lost {sorted(lost)}: the repair fails with {type(e).__name__}: {e}")
    return {'repairs': len(sets)}, (pdk, mode, len(cats))


def real_cases():
    for pdk in PDKS:
        for n in NAMES:
            for mode in ('CC', 'RC'):
                yield (pdk, n, mode, True)
        yield (pdk, ('A', 'B'), 'CC', False)


chk.explore(repair_cases(), repair_body, stage='repair', chunk=50)
chk.explore(real_cases(), real_body, stage='repair of extraction reports', chunk=1)
chk.explore(message_cases(), message_body, stage='messages', chunk=50)
chk.explore(cap_cases(), cap_body, stage='capacitances', chunk=10)
chk.explore(res_cases(), res_body, stage='resistances', chunk=4)
chk.finish()
