"""C06: the extracted resistor network of every net reproduces the drawn geometry; nets stay isolated."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, caps, pylvs, rcx, rnet

chk = core.Check('C06', rule='every wire/tree/via chain of the alphabet on every conductor and via of both PDKs, all orientations, '
                 'all pairs of nets; outcomes are distinct effective resistance matrices')
T = chk.thorough
kdb = rcx.mods().kdb
B = kdb.Box
V = core.Violation
PDKS = (pylvs.SKY, pylvs.IHP)


# ------------------------------------------------------------------ data of the technology file
def canon(pdk, layer):
    return caps.reftech(pdk).canon_of_computed[layer]


def rsheet(pdk, layer):
    for l in pylvs.tech_json(pdk)['process_parasitics']['resistance']['layers']:
        if l['layer_name'] == canon(pdk, layer):
            return l['resistance'] / 1000.0
    raise core.HarnessError(layer)


def via_info(pdk, layer):
    """(Ohm per cut, cut size in um)"""
    j = pylvs.tech_json(pdk)
    r = None
    for c in j['process_parasitics']['resistance']['contacts']:
        if c['contact_name'] == layer:
            r = c['resistance'] / 1000.0
    for v in j['process_parasitics']['resistance']['vias']:
        if r is None and v['via_name'] == canon(pdk, layer):
            r = v['resistance'] / 1000.0
    w = None
    for l in j['process_stack']['layers']:
        for k, v in l.items():
            if isinstance(v, dict) and v.get('contact_above', {}).get('name') == layer:
                w = v['contact_above']['width']
    if r is None or w is None:
        raise core.HarnessError(layer)
    return r, w


def orient(r, k):
    x0, y0, x1, y1 = r
    if k >= 4:
        x0, x1 = -x1, -x0
    for _ in range(k % 4):
        x0, y0, x1, y1 = -y1, x0, -y0, x1
    return (x0, y0, x1, y1)


def opt(p, k):
    return orient(p + p, k)[:2]


# ------------------------------------------------------------------ structures
# a structure: (boxes [(layer, box)], pins [(layer, x, y)])
def realize(pdk, parts, k=0, dbu=0.001, devices=(), other=None, gds=None, frag=False, extra=(), bb=False):
    """parts: [(net label, boxes, pins)] -> (result, [pin positions per part])"""
    sh, lab, pos = {}, [], []
    pinl = {m: p for m, _, p in pylvs.LEVELS[pdk]}
    h = 40
    for label, boxes, pins in parts:
        for l, b in boxes:
            b = orient(b, k)
            if frag:
                mx = (b[0] + b[2]) // 2
                sh.setdefault(l, []).extend([B(b[0], b[1], mx, b[3]), B(mx, b[1], b[2], b[3])])
            else:
                sh.setdefault(l, []).append(B(*b))
        pp = []
        for l, x, y in pins:
            x, y = opt((x, y), k)
            sh.setdefault(pinl[l], []).append(B(x - h, y - h, x + h, y + h))
            if label is not None:
                lab.append((l, label if isinstance(label, str) else label[len(pp) % len(label)], x, y))
            pp.append((l, x, y))
        pos.append(pp)
    for l, b in extra:
        sh.setdefault(l, []).append(B(*orient(b, k)))
    l2n = pylvs.make(pdk, sh, lab, dbu=dbu, devices=devices, other_names=other, gds=gds)
    return rcx.extract(l2n, pdk, 'R', False, blackbox=bb), pos


def isolation(res, ns):
    """networks of different nets share no node name; the summary couples only nodes of one net"""
    owner = {}
    for i, n in enumerate(ns):
        for _, name, _, _ in n.nodes.values():
            if owner.setdefault(name, i) != i:
                raise V(f"node {name!r} belongs to the networks of {ns[owner[name]].name!r} and {n.name!r}")
    for k in res.summarize().resistances:
        if k.net1 not in owner or k.net2 not in owner:
            raise V(f"summary resistor {k} between unknown nodes, known: {sorted(owner)}")
        if owner[k.net1] != owner[k.net2]:
            raise V(f"summary resistor {k} connects two different nets")
    names = [n.name for n in ns]
    if len(set(names)) != len(names):
        raise V(f"several networks of the same net: {names}")


def matrix(pdk, net, pins):
    ids = {}
    for (lay, x, y), i in net.pins().items():
        ids[(lay, x, y)] = i
    for i in ids.values():
        if net.nodes[i][1] != net.name:
            raise V(f"pin node of net {net.name} is called {net.nodes[i][1]}")
    p = []
    for l, x, y in pins:
        q = (canon(pdk, l), x, y)
        if q not in ids:
            raise V(f"net {net.name}: no node at pin {q}, only at {sorted(ids)}")
        p.append(ids[q])
    if len(ids) != len(set(p)):
        raise V(f"net {net.name}: pin nodes {sorted(ids)} for the pins {pins}")
    out = []
    for i in range(len(p)):
        for j in range(i):
            r = net.reff(p[i], p[j])
            if r is None:
                raise V(f"net {net.name}: pins {pins[i]} and {pins[j]} are not connected")
            out.append(r)
    comps = net.components()
    if p and len(comps) != 1:
        raise V(f"net {net.name}: network of a connected net has {len(comps)} components")
    return out


def extract(pdk, parts, **kw):
    res, pos = realize(pdk, parts, **kw)
    ns = rnet.nets(res)
    isolation(res, ns)
    byname = {n.name: n for n in ns}
    out = []
    for (label, _, _), pp in zip(parts, pos):
        if not isinstance(label, str):
            label = ','.join(sorted(set(label[n % len(label)] for n in range(len(pp)))))   # (several labels on a net)
        if label not in byname:
            raise V(f"no network for net {label}, only {sorted(byname)}")
        out.append(matrix(pdk, byname[label], pp))
    return out


def eq(what, a, b, rel=1e-6):
    for x, y in zip(a, b):
        if not core.close(x, y, rel, 1e-9):
            raise V(f"{what}: {a} Ohm, expected {b} Ohm")


def within(what, a, lo, hi):
    for x, l, h in zip(a, lo, hi):
        if not l * (1 - 1e-9) <= x <= h * (1 + 1e-9):
            raise V(f"{what}: {a} Ohm, expected within {lo} .. {hi} Ohm")


# ------------------------------------------------------------------ stage wire: straight wires, exact
def wire_body(case):
    pdk, layer, w, ps, off, k, dbu = case
    L = 20000
    boxes = [(layer, (0, 0, L, w))]
    pins = [(layer, p, off) for p in ps]
    got, = extract(pdk, [('N', boxes, pins)], k=k, dbu=dbu)
    exp = [rsheet(pdk, layer) * abs(ps[i] - ps[j]) / w for i in range(len(ps)) for j in range(i)]
    eq(f"wire of {layer}, width {w}, pins at {ps}", got, exp)
    return {'pairs': len(exp)}, hash(tuple(round(x, 6) for x in exp))


def wire_cases():
    for pdk in PDKS:
        for l, _, _ in pylvs.LEVELS[pdk]:
            for w in (1000, 400, 2500):
                for ps in ((500, 19500), (500, 7000, 19000), (12000, 900), (3000, 3500, 4500, 19900)):
                    for k in range(8 if T else 3):
                        for dbu in (0.001, 0.005):
                            yield pdk, l, w, ps, w // 2, k, dbu
            if T:
                for w in (300, 5000):
                    for ps in itertools.combinations((400, 1000, 9000, 15000, 19600), 3):
                        for k in (0, 1):
                            for off in (w // 2, w // 3):
                                yield pdk, l, w, ps, off, k, 0.001


chk.explore(wire_cases(), wire_body, stage='wire', chunk=16)


# ------------------------------------------------------------------ stage tree: bends, junctions, rings
W = 1000
SHAPES = {
    # name: (boxes, pins, [(straight squares, corners/junctions on the path) per pin pair])
    'L': ([(0, 0, 10000, W), (9000, 0, 10000, 8000)], [(500, 500), (9500, 7500)], [(15, 1)]),
    'T': ([(0, 0, 10000, W), (4000, 0, 5000, 8000)], [(500, 500), (9500, 500), (4500, 7500)],
          [(8, 1), (10, 1), (11, 1)]),
    'X': ([(0, 3000, 10000, 4000), (4000, 0, 5000, 8000)], [(500, 3500), (9500, 3500), (4500, 7500), (4500, 500)],
          [(8, 1), (7, 1), (8, 1), (6, 1), (7, 1), (6, 1)]),
    'Z': ([(0, 0, W, 5000), (0, 4000, 8000, 5000), (7000, 4000, 8000, 9000)], [(500, 500), (7500, 8500)], [(13, 2)]),
    'U': ([(0, 0, W, 5000), (0, 4000, 8000, 5000), (7000, 0, 8000, 5000)], [(500, 500), (7500, 500)], [(13, 2)]),
    'comb': ([(0, 0, 12000, W), (0, 0, W, 6000), (5000, 0, 6000, 6000), (11000, 0, 12000, 6000)],
             [(500, 5500), (5500, 5500), (11500, 5500)], [(13, 2), (19, 3), (14, 2)]),
}
RINGS = {
    # name: (boxes, pins, [(low, high) squares per pin pair])
    'ring': ([(0, 0, 10000, W), (0, 9000, 10000, 10000), (0, 0, W, 10000), (9000, 0, 10000, 10000)],
             [(500, 500), (9500, 9500)], [(8.0, 10.5)]),
    'ringside': ([(0, 0, 10000, W), (0, 9000, 10000, 10000), (0, 0, W, 10000), (9000, 0, 10000, 10000)],
                 [(500, 5000), (9500, 5000)], [(7.5, 10.0)]),
    'step': ([(0, 0, 5000, W), (5000, 0, 10000, 2 * W)], [(500, 500), (9500, 1000)], [(6.5, 9.7)]),
}


def tree_body(case):
    pdk, layer, name, mode = case
    ring = name in RINGS
    boxes, pins, spec = (RINGS if ring else SHAPES)[name]
    bx = [(layer, b) for b in boxes]
    pn = [(layer, x, y) for x, y in pins]
    rs = rsheet(pdk, layer)
    if ring:
        lo, hi = [rs * a for a, _ in spec], [rs * b for _, b in spec]
    else:
        # every corner / junction square counts 0.2 .. 1.6 squares
        lo, hi = [rs * (s + 0.0 * c) for s, c in spec], [rs * (s + 1.6 * c) for s, c in spec]
    base = None
    for k in range(8):
        got, = extract(pdk, [('N', bx, pn)], k=k, frag=mode == 'frag')
        within(f"{name} of {layer}, orientation {k}", got, lo, hi)
        if base is None:
            base = got
        eq(f"{name} of {layer}: orientation {k}", got, base, rel=0.15)
    return {'orientations': 8}, hash((name, tuple(round(x, 6) for x in base)))


chk.explore([(pdk, l, n, m) for pdk in PDKS for l, _, _ in pylvs.LEVELS[pdk] for n in list(SHAPES) + list(RINGS)
             for m in ('whole', 'frag')], tree_body, stage='tree', chunk=4)


# ------------------------------------------------------------------ stage chain: staircases through the vias, exact
def chain(pdk, i, j, w, d, cut):
    """from level i to level j, one via per level; returns boxes, pins, expected R"""
    st, lv = pylvs.STACK[pdk], pylvs.LEVELS[pdk]
    boxes, r, x = [], 0.0, 0
    pins = []
    for n in range(i, j + 1):
        l = lv[n][0]
        boxes.append((l, (x - w // 2, 0, x + d + w // 2, w)))
        if n == i:
            pins.append((l, x, w // 2))
        r += rsheet(pdk, l) * d / w
        x += d
        if n < j:
            v = st[st.index(l) + 1]
            ohm, vw = via_info(pdk, v)
            cx, cy = cut
            hx, hy = int(round(vw * 1000 * cx)) // 2, int(round(vw * 1000 * cy)) // 2
            boxes.append((v, (x - hx, w // 2 - hy, x + hx, w // 2 + hy)))
            r += ohm * (vw * 1000) ** 2 / (4 * hx * hy)
        else:
            pins.append((l, x, w // 2))
    return boxes, pins, r


def chain_body(case):
    pdk, i, j, w, d, cut, k = case
    boxes, pins, r = chain(pdk, i, j, w, d, cut)
    got, = extract(pdk, [('N', boxes, pins)], k=k)
    eq(f"staircase from {pylvs.LEVELS[pdk][i][0]} to {pylvs.LEVELS[pdk][j][0]}", got, [r])
    return {'vias': j - i}, hash(round(r, 6))


def chain_cases():
    for pdk in PDKS:
        n = len(pylvs.LEVELS[pdk])
        for i in range(n):
            for j in range(i + 1, n):
                for w, d in ((2000, 6000), (3000, 30000)) if T else ((2000, 6000),):
                    for cut in ((1, 1), (2, 1), (1, 2)):
                        for k in range(8) if T else (0, 5):
                            yield pdk, i, j, w, d, cut, k


chk.explore(chain_cases(), chain_body, stage='chain', chunk=4)


# ------------------------------------------------------------------ stage pins: any number of pins per layer
def pins_body(case):
    pdk, i, xs, k = case
    lv = pylvs.LEVELS[pdk]
    j = i + len(xs) - 1
    w, d = 2000, 6000
    boxes, _, _ = chain(pdk, i, j, w, d, (1, 1))
    pins, at, r = [], [], 0.0
    for n, p in enumerate(xs):               # (the wire of level n runs from x = n * d to (n + 1) * d)
        for x in p:
            pins.append((lv[i + n][0], n * d + x, w // 2))
            at.append(r + rsheet(pdk, lv[i + n][0]) * x / w)
        r += rsheet(pdk, lv[i + n][0]) * d / w
        if i + n < j:
            v = pylvs.STACK[pdk][pylvs.STACK[pdk].index(lv[i + n][0]) + 1]
            ohm, vw = via_info(pdk, v)
            r += ohm * (vw * 1000) ** 2 / (4 * (int(round(vw * 1000)) // 2) ** 2)
    got, = extract(pdk, [('N', boxes, pins)], k=k)
    eq(f"{len(xs)} wires from {lv[i][0]} with pins at {xs}", got, [abs(at[a] - at[b]) for a in range(len(at)) for b in range(a)])
    return {'pins': len(pins)}, hash(tuple(round(x, 6) for x in at))


def pins_cases():
    X = ((), (3000,), (1500, 4500), (4500, 1500), (1000, 3000, 5000))
    for pdk in PDKS:
        n = len(pylvs.LEVELS[pdk])
        for i in range(n - 1):
            for m in (2, 3):
                if i + m <= n:
                    for xs in itertools.product(X, repeat=m):
                        if sum(map(len, xs)) > 1:
                            for k in range(8) if T else (0, 3):
                                if m == 2 or T or k == 0:
                                    yield pdk, i, xs, k


chk.explore(pins_cases(), pins_body, stage='pins', chunk=8)


# ------------------------------------------------------------------ stage array: several cuts in parallel
def array_body(case):
    pdk, i, nx, ny, k = case
    st, lv = pylvs.STACK[pdk], pylvs.LEVELS[pdk]
    a, b = lv[i][0], lv[i + 1][0]
    v = st[st.index(a) + 1]
    ohm, vw = via_info(pdk, v)
    c = int(round(vw * 1000))
    pitch = 2 * c
    sx, sy = (nx - 1) * pitch + c, (ny - 1) * pitch + c
    w = max(sx, sy) + 2 * c
    L = 40 * c
    x0, y0 = c, c
    boxes = [(a, (0, 0, L, w)), (b, (w - L, 0, w, w))]
    boxes += [(v, (x0 + p * pitch, y0 + q * pitch, x0 + p * pitch + c, y0 + q * pitch + c))
              for p in range(nx) for q in range(ny)]
    pins = [(a, L - 300, w // 2), (b, w - L + 300, w // 2)]
    got, = extract(pdk, [('N', boxes, pins)], k=k)
    ra, rb = rsheet(pdk, a), rsheet(pdk, b)
    par = ohm / (nx * ny)
    lo = par + ra * (L - 300 - x0 - sx) / w + rb * (x0 - (w - L + 300)) / w
    hi = par + ra * (L - 300) / w + rb * (w + L) / w + (ra + rb) * 1.5 * max(nx, ny)
    within(f"{nx}x{ny} cuts of {v}", got, [lo], [hi])
    return {'cuts': nx * ny}, hash(round(got[0], 6))


chk.explore([(pdk, i, nx, ny, k) for pdk in PDKS for i in range(len(pylvs.LEVELS[pdk]) - 1)
             for nx in range(1, 5 if T else 4) for ny in range(1, 5 if T else 3) for k in ((0, 1, 6) if T else (0,))],
            array_body, stage='array', chunk=4)


# ------------------------------------------------------------------ stage nets: isolation, names, neighbours
NAMES = [('A', 'B'), ('x', 'X'), ('B', 'A'), ('n1', 'n10'), ('VDD', 'VSUBS'), ('net[0]', 'net[1]'), ('A', '$1'),
         (('P', 'Q'), 'B'), ('P', ('R', 'A', 'B'))]


def nets_body(case):
    pdk, i, s1, s2, names = case
    lv = pylvs.LEVELS[pdk]

    def struct(s, dy):
        if s == 'chain':
            boxes, pins, _ = chain(pdk, i, i + 1, 2000, 6000, (1, 1))
        else:
            bs, ps, _ = SHAPES[s]
            boxes, pins = [(lv[i][0], b) for b in bs], [(lv[i][0], x, y) for x, y in ps]
        return ([(l, (b[0], b[1] + dy, b[2], b[3] + dy)) for l, b in boxes], [(l, x, y + dy) for l, x, y in pins])
    p1, p2 = struct(s1, 0), struct(s2, 12000)
    r1, = extract(pdk, [('N', *p1)])
    r2, = extract(pdk, [('N', *p2)])
    both = extract(pdk, [(names[0], *p1), (names[1], *p2)])
    eq(f"{s1} as net {names[0]} beside {s2} as {names[1]}", both[0], r1)
    eq(f"{s2} as net {names[1]} beside {s1} as {names[0]}", both[1], r2)
    # an unlabelled neighbour
    un = extract(pdk, [(names[0], *p1)], extra=[(l, b) for l, b in p2[0]])
    eq(f"{s1} as net {names[0]} beside an unlabelled net", un[0], r1)
    # other drawing order
    rev = extract(pdk, [(names[1], *p2), (names[0], *p1)])
    eq(f"{s2} as net {names[1]}, drawn first", rev[0], r2)
    eq(f"{s1} as net {names[0]}, drawn second", rev[1], r1)
    return {'layouts': 5}, hash((s1, s2, tuple(round(x, 6) for x in r1 + r2)))


chk.explore([(pdk, i, a, b, n) for pdk in PDKS for i in (range(len(pylvs.LEVELS[pdk]) - 1) if T else (1, 4))
             for a in ('L', 'T', 'X', 'chain') for b in ('L', 'T', 'X', 'chain') for n in NAMES],
            nets_body, stage='nets', chunk=4)


# ------------------------------------------------------------------ stage device: terminals of transistors and resistors
def device_body(case):
    pdk, gx, lsd, k, nfet = case
    S = pdk == pylvs.SKY
    diff, cont, gc = {(True, True): ('nsd', 'licon_nsd_con', 'licon_poly_con'),
                      (True, False): ('psd', 'licon_psd_con', 'licon_poly_con'),
                      (False, True): ('nsd_fet', 'cont_nsd_con', 'cont_poly_con'),
                      (False, False): ('psd_fet', 'cont_psd_con', 'cont_poly_con')}[S, nfet]
    m = pylvs.LEVELS[pdk][1][0]
    ohm, vw = via_info(pdk, cont)
    pohm, pw = via_info(pdk, gc)
    h = int(round(vw * 1000)) // 2
    # gate from y=0..2000 at x = gx, length 500; diffusion left and right
    g = (gx, -1000, gx + 500, 8000)
    gate = (gx, 0, gx + 500, 2000)
    sd = [(gx - 3000, 0, gx, 2000), (gx + 500, 0, gx + 3500, 2000)]
    boxes = {m: [], cont: [], diff: sd, 'poly_con': [g], 'gate': [gate], gc: []}
    cx = [gx - 1500, gx + 2000]
    pins = {}
    for n, x in zip('SD', cx):
        boxes[cont].append((x - h, 1000 - h, x + h, 1000 + h))
        boxes[m].append((x - 250, 750, x + 250, 1250 + lsd))
        pins[n] = (m, x, 1000 + lsd)
    # gate contact at y = 7500, li/metal1 wire to the right
    gxc = gx + 250
    boxes[gc].append((gxc - h, 7500 - h, gxc + h, 7500 + h))
    boxes[m].append((gxc - 250, 7250, gxc + 10250, 7750))
    pins['G'] = (m, gxc + 10000, 7500)
    pinl = {a: p for a, _, p in pylvs.LEVELS[pdk]}
    sh, lab, pos = {}, [], {}
    for l, bs in boxes.items():
        sh[l] = [B(*orient(b, k)) for b in bs]
    for n, (l, x, y) in pins.items():
        x, y = opt((x, y), k)
        sh.setdefault(pinl[l], []).append(B(x - 40, y - 40, x + 40, y + 40))
        lab.append((l, n, x, y))
        pos[n] = (canon(pdk, l), x, y)
    l2n = pylvs.make(pdk, sh, lab, gds={**pylvs.gds_of(pdk), 'gate': (900, 0)},
                     devices=[('mos3', 'fet', {'SD': diff, 'G': 'gate', 'tS': diff, 'tD': diff, 'tG': 'poly_con'})])
    res = rcx.extract(l2n, pdk, 'R', False)
    ns = rnet.nets(res)
    isolation(res, ns)
    by = {n.name: n for n in ns}
    exp = {'S': rsheet(pdk, m) * lsd / 500 + ohm,
           'D': rsheet(pdk, m) * lsd / 500 + ohm,
           'G': rsheet(pdk, m) * 10000 / 500 + pohm + rsheet(pdk, 'poly_con') * 5500 / 500}
    for n in 'SDG':
        if n not in by:
            raise V(f"no network of net {n}")
        net = by[n]
        p = net.pins().get(pos[n])
        if p is None:
            raise V(f"net {n}: no node at its pin {pos[n]}")
        region = orient(gate if n == 'G' else sd['SD'.index(n)], k)
        lay = canon(pdk, 'poly_con' if n == 'G' else diff)
        t = [i for i, x in net.nodes.items() if x[3] == ('b', *region) and x[2] == lay and x[1] == n]
        if len(t) != 1:
            raise V(f"net {n}: {len(t)} nodes for the device terminal at {region} on {lay}; nodes {list(net.nodes.values())}")
        r = net.reff(p, t[0])
        if r is None:
            raise V(f"net {n}: pin and device terminal are not connected")
        # (KLayout takes the resistance of a polygon port from its edge or its center)
        slack = rsheet(pdk, 'poly_con') * 1000 / 500 if n == 'G' else 0.0
        if not exp[n] * (1 - 1e-6) <= r <= (exp[n] + slack) * (1 + 1e-6):
            raise V(f"net {n}: {r} Ohm from the pin to the device terminal, expected {exp[n]} Ohm")
        if len(net.components()) != 1:
            raise V(f"net {n} falls apart")
    return {'terminals': 3}, hash((pdk, nfet, tuple(exp.values())))


chk.explore([(pdk, gx, lsd, k, nf) for pdk in PDKS for gx in (0, 4000) for lsd in (1000, 4000) for k in range(8)
             for nf in (True, False)], device_body, stage='device', chunk=2)


# ------------------------------------------------------------------ stage mim: capacitor plates
MIMS = [(pylvs.SKY, 'met3_cap', 'capm', 'via3_cap', 'met4_ncap', 'met2_con', 'via2_con'),
        (pylvs.SKY, 'met4_cap', 'capm2', 'via4_cap', 'met5_con', 'met3_ncap', 'via3_ncap'),
        (pylvs.IHP, 'metal5_cap', 'cmim_top', 'mim_via', 'topmetal1_con', 'metal4_con', 'via4_drw')]


def mim_body(case):
    mi, dev, bb, which = case
    pdk, plate, cap, via, above, below, bv = MIMS[mi]
    sh = [(below, (0, 0, 3500, 1500)), (bv, (2200, 200, 2600, 600)), (plate, (2000, 0, 9000, 7000)),
          (cap, (3000, 1000, 8000, 6000)), (via, (4000, 2000, 4400, 2400)), (above, (3500, 1500, 12000, 3000))]
    parts = [('p', sh[:1], [(below, 300, 700)]), ('q', sh[5:], [(above, 11000, 2200)])]
    devices = (('cap', 'mimcap', {'P1': plate, 'P2': cap}),) if dev else ()
    res, pos = realize(pdk, parts, extra=sh[1:5], devices=devices, bb=bb)
    ns = rnet.nets(res)
    isolation(res, ns)
    by = {n.name: n for n in ns}
    for n, pp in (('p', pos[0]), ('q', pos[1])):
        if n not in by:
            raise V(f"no network of net {n}")
        if (canon(pdk, pp[0][0]), *pp[0][1:]) not in by[n].pins():
            raise V(f"net {n}: no node at its pin")
        if dev and not bb and n == which:
            # the capacitor's terminal is connected to the pin
            t = [i for i, x in by[n].nodes.items() if x[1] == n and x[3][0] == 'b']
            i = by[n].pins()[(canon(pdk, pp[0][0]), *pp[0][1:])]
            if not t or any(by[n].reff(i, j) is None for j in t):
                raise V(f"net {n}: the capacitor plate is not connected to the pin of its net",
                        key=f"mim-plate-open:{pdk}:{plate if n == 'p' else cap}")
    return {'mim': 1}, (mi, dev, bb, which)


chk.explore([(i, d, b, n) for i in range(3) for d in (0, 1) for b in (False, True) for n in 'pq'], mim_body, stage='mim', chunk=1)


# ------------------------------------------------------------------ stage ports: several ports of a net in the netlist
def ports_body(case):
    pdk, layer = case
    res, pos = realize(pdk, [('N', [(layer, (0, 0, 20000, 1000))], [(layer, 500, 500), (layer, 19500, 500)])])
    for k in res.summarize().resistances:
        if k.net1 == k.net2:
            raise V(f"the resistor between two pins of net {k.net1} has the same node on both sides in the netlist",
                    key='ports-of-a-net-are-one-node')
    return {'ports': 1}, layer


chk.explore([(pdk, l) for pdk in PDKS for l, _, _ in pylvs.LEVELS[pdk]], ports_body, stage='ports', chunk=4)
chk.finish()
