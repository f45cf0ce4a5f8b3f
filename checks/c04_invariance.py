"""C04: the extracted capacitances depend on geometry and connectivity only."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, caps, pylvs, enum25, rcx

chk = core.Check('C04', rule='every transformation of the alphabet (8 orientations x shifts, renamings, drawing order, '
                 'fragmentations, hierarchies, unlabelled nets) applied to every base layout; outcomes are distinct '
                 'capacitance tables')
T = chk.thorough
PDKS = (pylvs.SKY, pylvs.IHP)


def bases():
    """layouts without symmetry on 2..4 layers"""
    out = []
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for i in range(len(ms) - 2 if T else 4):
            a, b, c = ms[i], ms[i + 1], ms[i + 2]
            out.append((pdk, ((a, 'A', 0, 0, 2000, 5000), (a, 'B', 2600, 1000, 4000, 4400),
                              (b, 'C', 1000, -500, 3500, 3000), (c, 'A', -1500, 1200, 5200, 2300))))
            out.append((pdk, ((a, 'A', 0, 0, 1000, 4000), (a, 'A', 1000, 0, 4000, 800), (a, 'B', 1700, 1500, 3000, 3300),
                              (c, 'C', 3500, 500, 6000, 6000))))
            out.append((pdk, ((a, 'A', 0, 0, 3000, 1000), (b, 'A', 500, 2000, 3000, 4000), (b, 'B', 3500, 700, 6100, 2800),
                              (c, 'B', 200, 200, 900, 3700), (c, 'C', 1500, -900, 2200, 900))))
        for m, cap, plate, below, above in enum25.MIM[pdk]:
            out.append((pdk, ((m, 'A', 3000, 0, 5000, 4000), (cap, 'A', 0, 0, 3000, 4000), (plate, 'C', 500, 500, 2500, 2800),
                              (above, 'B', 1000, -2000, 2000, 5000), (below, 'D', -1000, 1000, 6000, 1700))))
    return out


BASES = bases()


def rects_to_tables(pdk, rects, **kw):
    l2n = caps.lvs(pdk, kw.pop('dbu', 0.001), rects)
    return rcx.tables(rcx.extract(l2n, pdk, 'CC', kw.pop('scale', True)))


def rename(tabs, f):
    ov, sw, fr = tabs
    o2, s2, f2 = {}, {}, {}
    for (a, n, b, m), v in ov.items():
        o2[a, f(n), b, f(m)] = o2.get((a, f(n), b, f(m)), 0.0) + v
    for (l, n, m), v in sw.items():
        s2[l, f(n), f(m)] = s2.get((l, f(n), f(m)), 0.0) + v
    for (a, n, b, m), v in fr.items():
        f2[a, f(n), b, f(m)] = f2.get((a, f(n), b, f(m)), 0.0) + v
    return o2, s2, f2


def compare(base, got, what):
    for n, b, g in zip(('overlap', 'sidewall', 'side overlap'), base, got):
        for k in set(b) | set(g):
            if not core.close(b.get(k, 0.0), g.get(k, 0.0), 1e-6, 1e-9):
                raise core.Violation(f"{what}: {n} capacitance of {k} is {g.get(k, 0.0)} fF instead of "
                                     f"{b.get(k, 0.0)} fF\nbase: {caps.fmt(b)}\ntransformed: {caps.fmt(g)}")


def orient(r, k):
    l, n, x0, y0, x1, y1 = r
    if k >= 4:
        x0, x1 = -x1, -x0
    for _ in range(k % 4):
        x0, y0, x1, y1 = -y1, x0, -y0, x1
    return (l, n, x0, y0, x1, y1)


def shift(r, d):
    return r[:2] + (r[2] + d[0], r[3] + d[1], r[4] + d[0], r[5] + d[1])


def sig(t):
    return hash(tuple(sorted((str(k), round(v, 7)) for d in t for k, v in d.items())))


# ---------------------------------------------------------------- geometry
SHIFTS = [(0, 0), (100000, -37), (-123457, 5000), (-2500, -2500)]
FAR = [(5000000, -7000000), (-40000000, 3), (3, 300000001), (-999999999, -999999999)]


def geo_cases():
    for b in range(len(BASES)):
        for k in range(8):
            for d in SHIFTS + (FAR if k in (0, 5) or T else []):
                yield (b, k, d)


def geo(case):
    b, k, d = case
    pdk, rects = BASES[b]
    base = rects_to_tables(pdk, rects)
    got = rects_to_tables(pdk, tuple(shift(orient(r, k), d) for r in rects))
    compare(base, got, f"orientation {k}, shift {d}")
    return {}, sig(got)


# ---------------------------------------------------------------- net names
NAMES = ['A', 'B', 'C', 'D', 'a', 'VDD', 'vdd!', 'x/y[3]', 'net-1', '$weird', 'ä', '0', 'VSS', 'N 1', 'gnd.sub', 'ZZ']


# names that are easily confused: case, prefixes, suffixes, separators
TRICKY = [('a', 'A', 'b', 'B'), ('net1', 'net10', 'net', 'NET1'), ('A,B', 'A', 'B', 'A|B'), ('x.y', 'x', 'y', 'X.Y')]


def name_cases():
    for b in range(len(BASES)):
        nets = sorted({r[1] for r in BASES[b][1]})
        perms = list(itertools.permutations(('A', 'B', 'C', 'D'), len(nets)))
        for p in perms:
            yield (b, p)
        for s in range(4, len(NAMES)):
            yield (b, tuple(NAMES[(s + 3 * i - 4) % (len(NAMES) - 4) + 4] for i in range(len(nets))))
        for t in TRICKY:
            for p in itertools.permutations(t, len(nets)):
                yield (b, p)
        yield (b, None)


def names(case):
    b, p = case
    pdk, rects = BASES[b]
    nets = sorted({r[1] for r in rects})
    base = rects_to_tables(pdk, rects)
    if p is None:
        # drop the labels of every set of nets of one shape each: they keep their capacitances
        single = [n for n in nets if len([r for r in rects if r[1] == n]) == 1]
        for k in range(1, len(single) + 1):
            for drop in itertools.combinations(single, k):
                got = rects_to_tables(pdk, tuple(r if r[1] not in drop else (r[0], None) + r[2:] for r in rects))
                un = sorted({m for d in got for kk in d for m in (kk[1], kk[-1])} - set(nets) - {'VSUBS', None}, key=str)
                if len(un) > k:
                    raise core.Violation(f"{k} unlabelled nets, but nets {un} found")
                err = None
                for perm in itertools.permutations(drop, len(un)):
                    m = dict(zip(un, perm))
                    try:
                        compare(base, rename(got, lambda x: m.get(x, x)), f"nets {drop} without labels")
                        break
                    except core.Violation as e:
                        err = err or e
                else:
                    raise err
        return {}, None
    m = dict(zip(nets, p))
    got = rects_to_tables(pdk, tuple((r[0], m[r[1]]) + r[2:] for r in rects))
    inv = {v: k for k, v in m.items()}
    compare(base, rename(got, lambda x: inv.get(x, x)), f"nets renamed {m}")
    return {}, sig(got)


# ---------------------------------------------------------------- drawing
def cut(r, fx, fy):
    l, n, x0, y0, x1, y1 = r
    xs = [x0] + ([x0 + (x1 - x0) // fx // 5 * 5] if fx > 1 else []) + [x1]
    ys = [y0] + ([y0 + (y1 - y0) // fy // 5 * 5] if fy > 1 else []) + [y1]
    return [(l, n, a, c, b, d) for a, b in zip(xs, xs[1:]) for c, d in zip(ys, ys[1:])]


def draw_cases():
    for b in range(len(BASES)):
        n = len(BASES[b][1])
        for perm in (itertools.permutations(range(n)) if n <= 4 else itertools.islice(itertools.permutations(range(n)), 30)):
            yield (b, 'order', perm)
        for fx, fy in ((2, 1), (1, 2), (2, 2), (3, 4)):
            for which in range(1, 2 ** n):
                yield (b, 'cut', (fx, fy, which))
        yield (b, 'dup', ())


def draw(case):
    b, kind, arg = case
    pdk, rects = BASES[b]
    base = rects_to_tables(pdk, rects)
    if kind == 'order':
        r2 = tuple(rects[i] for i in arg)
    elif kind == 'dup':
        r2 = rects + rects + tuple(r[:2] + (r[2], r[3], (r[2] + r[4]) // 2, r[5]) for r in rects)
    else:
        fx, fy, which = arg
        r2 = tuple(q for i, r in enumerate(rects) for q in (cut(r, fx, fy) if which >> i & 1 else [r]))
    got = rects_to_tables(pdk, r2)
    compare(base, got, f"{kind} {arg}")
    return {}, sig(got)


# ---------------------------------------------------------------- hierarchy
def hier_cases():
    for pdk in PDKS:
        ms = enum25.metals(pdk)
        for i in range(len(ms) - 1 if T else 4):
            for n in (1, 2, 3):
                for rot in (0, 1, 4):
                    for lab in (0, 1):
                        for depth in (1, 2):
                            yield (pdk, i, n, rot, lab, depth)


def hier(case):
    """n instances of a cell with two shapes (one of them local to the cell) connected by a wire of the parent;
    the flat drawing of the same layout must give the same capacitances (nets matched by position)"""
    pdk, i, n, rot, lab, depth = case
    kdb = rcx.mods().kdb
    ms = enum25.metals(pdk)
    st = pylvs.STACK[pdk]
    a, b = ms[i], ms[i + 1]
    via = st[st.index(a) + 1]
    gds = pylvs.gds_of(pdk)
    cellshapes = [(a, kdb.Box(0, 0, 2000, 3000)), (a, kdb.Box(2600, -500, 3500, 4000)),
                  (b, kdb.Box(500, 500, 1500, 3500)), (via, kdb.Box(800, 800, 1000, 1000))]
    topshapes = [(b, kdb.Box(-1000, 900, 40000, 1200))] if rot == 0 else \
        [(b, kdb.Box(-30000, -30000, 60000, 30000))]
    tl = pylvs.text_layer_of(pdk, a)

    def build(flat):
        ly = kdb.Layout()
        ly.dbu = 0.001
        top = ly.create_cell('TOP')
        sub = ly.create_cell('SUB')
        for l, s in cellshapes:
            sub.shapes(ly.layer(*gds[l])).insert(s)
        ti = ly.layer(*gds[tl])
        if lab:
            sub.shapes(ti).insert(kdb.Text('LOC', 3000, 1000))
        inst = sub
        if depth == 2:
            inst = ly.create_cell('MID')
            inst.insert(kdb.CellInstArray(sub.cell_index(), kdb.Trans(0, 0)))
        for k in range(n):
            inst_t = kdb.Trans(rot % 4, rot >= 4, 8000 * k, 0)
            top.insert(kdb.CellInstArray(inst.cell_index(), inst_t))
        for l, s in topshapes:
            top.shapes(ly.layer(*gds[l])).insert(s)
        if flat:
            ly.flatten(top.cell_index(), -1, True)
        l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
        regs = {x: l2n.make_layer(ly.layer(*gds[x]), x) for x in (a, via, b)}
        tr = l2n.make_text_layer(ti, tl)
        for r in regs.values():
            l2n.connect(r)
        l2n.connect(regs[a], regs[via])
        l2n.connect(regs[via], regs[b])
        l2n.connect(regs[a], tr)
        l2n.extract_netlist()
        l2n._keep = ly
        return l2n, rcx.tables(rcx.extract(l2n, pdk))

    lh, th = build(False)
    lf, tf = build(True)
    # net names by position
    pts = [kdb.Point(1000, 1000), kdb.Point(3000, 1000)]
    ctxh, ctxf = rcx.context(lh, pdk), rcx.context(lf, pdk)

    def net_at(ctx, p):
        s = set()
        for src in ctx.extracted_layers[gds[a]].source_layers:
            it = src.region.begin_shapes_rec()
            reg, trans = it
            while not reg.at_end():
                poly = (trans * reg.trans() * reg.shape().polygon)
                if poly.inside(p):
                    s.add(reg.shape().property('net'))
                reg.next()
        return s
    seen = {}
    m = {}
    for k in range(n):
        for p in pts:
            q = kdb.Trans(rot % 4, rot >= 4, 8000 * k, 0) * p
            h, f = net_at(ctxh, q), net_at(ctxf, q)
            if len(h) != 1 or len(f) != 1:
                raise core.Violation(f"nets at {q}: hierarchical {h}, flat {f}")
            h, f = h.pop(), f.pop()
            if lab and p is pts[1]:
                f = h      # (flat: same label, but distinct nets of the same name)
            elif m.setdefault(h, f) != f or seen.setdefault(f, h) != h:
                raise core.Violation(f"net at {q}: {h} of the hierarchical layout is {f} of the flat one, but also "
                                     f"{m.get(h)}")
    if lab:
        # labelled local nets: every instance has its own net
        loc = set()
        for k in range(n):
            q = kdb.Trans(rot % 4, rot >= 4, 8000 * k, 0) * pts[1]
            loc |= net_at(ctxh, q)
        if len(loc) != n:
            raise core.Violation(f"{n} unconnected instances of a net, but extracted as {sorted(loc)}")
        return {}, sig(th)
    compare(tf, rename(th, lambda x: m.get(x, x)), 'hierarchical layout')
    return {}, sig(th)


chk.explore(geo_cases(), geo, 'geometry')
chk.explore(name_cases(), names, 'names')
chk.explore(draw_cases(), draw, 'drawing')
chk.explore(hier_cases(), hier, 'hierarchy')
chk.finish()
