"""C18: LVS database -> extraction context (layers, nets, pins, labels, devices), exchange format round trip."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C18', rule='every computed layer x shape x net naming; every set of layers of one metal; every hierarchy of the '
                 'alphabet x label placement; blackboxing of every layer; every device kind x placement; every polygon of '
                 'the exchange format alphabet; outcomes are distinct results')
T = chk.thorough
M = rcx.mods()
kdb = M.kdb
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as shapes_pb2
cli.preload()
B = kdb.Box
V = core.Violation
SKY, IHP = pylvs.SKY, pylvs.IHP
PDKS = (SKY, IHP)


def poly(kind, x=0, y=0, s=1):
    """a figure of the alphabet, within a 1000 s square"""
    p = {'box': kdb.Polygon(B(0, 0, 1000, 600)),
         'L': kdb.Polygon([kdb.Point(*q) for q in ((0, 0), (0, 1000), (300, 1000), (300, 400), (1000, 400), (1000, 0))]),
         'donut': kdb.Polygon(B(0, 0, 1000, 1000)),
         'two': kdb.Polygon(B(0, 0, 1000, 1000)),
         'diag': kdb.Polygon([kdb.Point(*q) for q in ((0, 0), (0, 500), (500, 1000), (1000, 1000), (1000, 800))])}[kind]
    if kind == 'donut':
        p.insert_hole(B(300, 300, 600, 700))
    if kind == 'two':
        p.insert_hole(B(200, 300, 400, 500))
        p.insert_hole(B(600, 600, 800, 700))
    return p.transformed(kdb.ICplxTrans(s, 0, False, x, y))


KINDS = ['box', 'L', 'donut', 'two', 'diag']


def computed(pdk):
    return [l for l in pylvs.tech_json(pdk)['lvs_computed_layers']]


def is_device(l):
    return l.get('kind') in ('KIND_DEVICE_CAPACITOR', 'KIND_DEVICE_RESISTOR')


def conductors(pdk):
    """layers that carry polygons (no text layers)"""
    texts = {t for _, t, _ in pylvs.LEVELS[pdk]}
    return [l for l in computed(pdk) if l['layer_info']['name'] not in texts]


def xor_empty(a, b):
    x, y = kdb.Region(), kdb.Region()
    for p in a.each() if isinstance(a, kdb.Region) else a:
        x.insert(p if isinstance(p, kdb.Polygon) else kdb.Polygon(p))
    for p in b.each() if isinstance(b, kdb.Region) else b:
        y.insert(p if isinstance(p, kdb.Polygon) else kdb.Polygon(p))
    return (x ^ y).is_empty()


def plain(region):
    """[(polygon, net)] of a region"""
    out = []
    for p in region.each():
        n = p.property('net')
        out.append((kdb.Polygon(list(p.each_point_hull())) if False else p, n))
    return out


def raw_area(region):
    return sum(p.area() for p in region.each())


def load(l2n, path):
    l2n.write(path)
    d = kdb.LayoutVsSchematic()
    d.read(path)
    return d


def variants(mk):
    """the same LVSDB as made in memory and as read back from a file"""
    import tempfile
    yield 'memory', mk()
    with tempfile.TemporaryDirectory(prefix='kv') as d:
        yield 'file', load(mk(), os.path.join(d, 'x.lvsdb'))


# ------------------------------------------------------------------ A: layers and nets
def raw_gds(pdk):
    """drawn layers, one per computed layer (the technology may give several of them the same GDS pair)"""
    d, used = {}, set()
    for k, v in pylvs.gds_of(pdk).items():
        while v in used:
            v = (v[0], v[1] + 1000)
        used.add(v)
        d[k] = v
    return d


def check_shapes(ctx, what, exp, pdk, drawn_area=None):
    """exp: {computed layer name: [(polygon, net key)]}; net key: name, or ('#', k) for unnamed net k"""
    gds = pylvs.gds_of(pdk)
    want = {}
    for name, l in exp.items():
        if l:
            want.setdefault(gds[name], {})[name] = l
    got = {k: sorted(s.lvs_layer_name for s in v.source_layers) for k, v in ctx.extracted_layers.items()}
    if got != {k: sorted(v) for k, v in want.items()}:
        raise V(f"{what}: extracted layers {got}, drawn {({k: sorted(v) for k, v in want.items()})}")
    names = {}
    for pair_, by in want.items():
        m = ctx.extracted_layers[pair_]
        if tuple(m.gds_pair) != pair_:
            raise V(f"{what}: extracted layer {pair_} has GDS pair {m.gds_pair}")
        for s in m.source_layers:
            drawn = [p for p, _ in by[s.lvs_layer_name]]
            if tuple(s.gds_pair) != pair_:
                raise V(f"{what}: source layer {s.lvs_layer_name} has GDS pair {s.gds_pair} instead of {pair_}")
            if not xor_empty(s.region, drawn):
                raise V(f"{what}: the shapes of source layer {s.lvs_layer_name} are not the drawn ones")
        region = ctx.shapes_of_layer(pair_)
        drawn = [(p, n) for l in by.values() for p, n in l]
        per = {}
        for p, n in drawn:
            per.setdefault(n, []).append(p)
        lo = sum(kdb.Region(ps).merged().area() for l in by.values() for ps in group(l).values())
        if not lo <= raw_area(region) <= max(lo, sum((drawn_area or {}).get(n, 0) for n in by)):
            raise V(f"{what}: shapes of layer {pair_} have area {raw_area(region)}, "
                    f"drawn {[str(p) for p, _ in drawn]}: missing or duplicated shapes")
        if not xor_empty(region, [p for p, _ in drawn]):
            raise V(f"{what}: shapes of layer {pair_} differ from the drawn ones")
        by_net = {}
        for p in region.each():
            if p.property('net') in (None, ''):
                raise V(f"{what}: shape {p} of layer {pair_} has no net")
            by_net.setdefault(p.property('net'), []).append(p)
        for n, ps in per.items():
            if isinstance(n, tuple):    # unnamed: whichever name it got, the same on all layers
                hit = [g for g in by_net if not kdb.Region(by_net[g]).interacting(kdb.Region(ps)).is_empty()
                       and xor_empty(by_net[g], ps)]
                if len(hit) != 1:
                    raise V(f"{what}: no net of layer {pair_} has exactly the shapes of unnamed net {n}")
                if names.setdefault(n, hit[0]) != hit[0]:
                    raise V(f"{what}: unnamed net {n} is named {names[n]} on one layer, {hit[0]} on another")
                g = hit[0]
            else:
                g = n
                if g not in by_net:
                    raise V(f"{what}: no shapes of net {g} on layer {pair_}: {sorted(by_net)}")
            if not xor_empty(by_net[g], ps):
                raise V(f"{what}: the shapes of net {g} on layer {pair_} are not the drawn ones")
            r = ctx.shapes_of_net(pair_, g)
            if r is None or not xor_empty(r, ps) or drawn_area is None and raw_area(r) != sum(
                    kdb.Region(q).merged().area() for l in by.values() for k, q in group(l).items() if k == n):
                raise V(f"{what}: shapes_of_net({pair_}, {g}) are not the drawn shapes")
        if len(by_net) != len(per):
            raise V(f"{what}: layer {pair_} has nets {sorted(by_net)}, drawn {len(per)} nets")
    if len(set(names.values())) != len(names) or set(names.values()) & {n for l in exp.values() for _, n in l
                                                                       if not isinstance(n, tuple)}:
        raise V(f"{what}: different nets have the same name: {names}")
    # by net object
    objs = {}
    for n in ctx.top_circuit.each_net() if ctx.top_circuit is not None else ():
        objs[n.expanded_name()] = n
    for pair_, by in want.items():
        for l in by.values():
            for n in {k for _, k in l}:
                g = names.get(n, n)
                if g not in objs:
                    raise V(f"{what}: net {g} of layer {pair_} is not in the netlist: {sorted(objs)}")
                r = ctx.shapes_of_net(pair_, objs[g])
                ps = [p for q in by.values() for p, k in q if k == n]
                if not xor_empty(r, ps):
                    raise V(f"{what}: shapes_of_net({pair_}, net object {g}) are not the drawn shapes")
        for g in ('NOSUCHNET', '', 'A ', '$'):
            r = ctx.shapes_of_net(pair_, g)
            if r is not None and not r.is_empty():
                raise V(f"{what}: shapes_of_net({pair_}, {g!r}) is not empty")
    if ctx.shapes_of_layer((99, 99)) is not None or ctx.shapes_of_net((99, 99), 'A') is not None:
        raise V(f"{what}: shapes of a layer that was not extracted")
    return str(sorted(want)), len(names)


def group(l):
    d = {}
    for p, n in l:
        d.setdefault(n, []).append(p)
    return d


def run_single(c):
    _, pdk, name, kinds = c
    l = next(x for x in computed(pdk) if x['layer_info']['name'] == name)
    exp = [(poly(k, 2000 * i, 500 * i), ('#', i)) for i, k in enumerate(kinds)]
    out = []
    for bb in (False, True):
        for how, l2n in variants(lambda: pylvs.make(pdk, {name: [p for p, _ in exp]})):
            ctx = rcx.context(l2n, pdk, blackbox=bb)
            gone = bb and is_device(l)
            out.append(check_shapes(ctx, f"{pdk} {name} {kinds} ({how}, blackbox {bb})",
                                    {} if gone else {name: exp}, pdk))
            if ctx.unnamed_layers:
                raise V(f"{pdk} {name}: reported as unknown layer")
    return str(out)


def run_named(c):
    """a metal with named and unnamed nets; the same name on two islands (joined or not)"""
    _, pdk, lev, names, join = c
    cond, _, _ = pylvs.LEVELS[pdk][lev]
    shapes, labels, exp = [], [], []
    count = {}
    for n in names:
        count[n] = count.get(n, 0) + (n is not None)
    for i, n in enumerate(names):
        p = poly(KINDS[i % len(KINDS)], 2000 * i, 0)
        shapes.append(p)
        if n is not None:
            labels.append((cond, n, 2000 * i + 100, 100))
        exp.append((p, n if n is not None else ('#', i)))
    out = []
    for how, l2n in variants(lambda: pylvs.make(pdk, {cond: shapes}, labels, join=join)):
        ctx = rcx.context(l2n, pdk)
        out.append(check_shapes(ctx, f"{pdk} {cond} nets {names} (join {join}, {how})", {cond: exp}, pdk))
    return str(out)


def run_stack(c):
    """several conductor layers at once, connected columns and separate ones"""
    _, pdk, layers, shift, named, bb = c
    conn = {frozenset(x) for x in pylvs.connections(pdk)}
    exp = {}
    # column 0: all layers stacked (connected where the deck connects them), column 1: separate shapes
    comp = {l: l for l in layers}

    def find(a):
        while comp[a] != a:
            a = comp[a]
        return a
    for a, b in itertools.combinations(layers, 2):
        if frozenset((a, b)) in conn and not shift:
            comp[find(a)] = find(b)
    labels = []
    metals = [m for m, _, _ in pylvs.LEVELS[pdk]]
    net = {}
    for i, l in enumerate(layers):
        net.setdefault(find(l), ('#', find(l)))
    for l in layers:
        if named and l in metals:
            net[find(l)] = 'N' + str(layers.index(find(l)))
    for i, l in enumerate(layers):
        p = poly(KINDS[i % 3], (i * 2000 if shift else 0), 0)
        exp[l] = [(p, net[find(l)])]
        if named and l in metals:
            labels.append((l, net[find(l)], (i * 2000 if shift else 0) + 100, 100))
    exp2 = {l: v for l, v in exp.items()
            if not (bb and is_device(next(x for x in computed(pdk) if x['layer_info']['name'] == l)))}
    l2n = pylvs.make(pdk, {l: [p for p, _ in v] for l, v in exp.items()}, labels, gds=raw_gds(pdk))
    ctx = rcx.context(l2n, pdk, blackbox=bb)
    return str(check_shapes(ctx, f"{pdk} layers {layers} (shift {shift}, named {named}, blackbox {bb})", exp2, pdk))


def run_unknown(c):
    """layers the technology does not know are kept apart, known ones untouched"""
    _, pdk, known, unknown = c
    shapes = {l: [poly('L', 3000 * i, 0)] for i, l in enumerate(known + unknown)}
    exp = {l: [(shapes[l][0], ('#', l))] for l in known}
    out = []
    for how, l2n in variants(lambda: pylvs.make(pdk, shapes, other_names={l: 'foo_' + l for l in unknown})):
        ctx = rcx.context(l2n, pdk)
        what = f"{pdk} {known} with unknown {unknown} ({how})"
        check_shapes(ctx, what, exp, pdk)
        got = {u.lvs_layer_name: u for u in ctx.unnamed_layers}
        if how == 'memory' or got:      # (a LVSDB file may lose the raw GDS pair; then the layer cannot be placed)
            if sorted(got) != sorted('foo_' + l for l in unknown):
                raise V(f"{what}: unknown layers reported {sorted(got)}")
        for l in unknown:
            if 'foo_' + l in got and not xor_empty(got['foo_' + l].region, shapes[l]):
                raise V(f"{what}: wrong shapes of unknown layer {l}")
        pairs = [tuple(u.gds_pair) for u in ctx.unnamed_layers]
        if len(set(pairs)) != len(pairs) or set(pairs) & set(ctx.extracted_layers):
            raise V(f"{what}: unknown layers share a GDS pair: {pairs}")
        out.append(sorted(got))
    return str(out)


# ------------------------------------------------------------------ B, F: hierarchies, pins and labels
TR = [kdb.Trans(r, m, kdb.Vector(0, 0)) for m in (False, True) for r in range(4)]


def hier(pdk, lev, order, tree, tops, sublab, subpin, toplab, toppin):
    """tree: 'flat' | 'one' | 'two' | 'deep' | 'array'; tops: top level bridge; returns (layout, flat figures)"""
    cond, text, pin = pylvs.LEVELS[pdk][lev]
    gds = pylvs.gds_of(pdk)
    ly = kdb.Layout()
    ly.dbu = 0.001
    if order == 'top first':
        top = ly.create_cell('TOP')
    s = ly.create_cell('SUB')
    mid = ly.create_cell('MID')
    if order != 'top first':
        top = ly.create_cell('TOP')
    lc, lt, lp = (ly.layer(*gds[x]) for x in (cond, text, pin))
    s.shapes(lc).insert(B(0, 0, 1000, 400))
    s.shapes(lc).insert(B(0, 0, 300, 900))
    if subpin:
        s.shapes(lp).insert(B(100, 100, 250, 300))
    if sublab:
        s.shapes(lt).insert(kdb.Text('S', 200, 200))
    kind, a, b = tree
    t1, t2 = TR[a] * kdb.Trans(0, 0), kdb.Trans(5000, 3000) * TR[b]
    if kind in ('one', 'two'):
        top.insert(kdb.CellInstArray(s.cell_index(), t1))
        if kind == 'two':
            top.insert(kdb.CellInstArray(s.cell_index(), t2))
    elif kind == 'deep':
        mid.insert(kdb.CellInstArray(s.cell_index(), t1))
        mid.insert(kdb.CellInstArray(s.cell_index(), kdb.Trans(2500, 0)))
        mid.shapes(lc).insert(B(2600, 200, 4000, 300))
        top.insert(kdb.CellInstArray(mid.cell_index(), kdb.Trans(-3000, 0)))
        top.insert(kdb.CellInstArray(mid.cell_index(), kdb.Trans(9000, 3000) * TR[b]))
    elif kind == 'array':
        top.insert(kdb.CellInstArray(s.cell_index(), t1, kdb.Vector(3000, 0), kdb.Vector(0, 4000), 2, 2))
    if kind != 'deep':
        ly.delete_cell(mid.cell_index())
    if kind == 'flat':
        ly.delete_cell(s.cell_index())
    if tops in ('own', 'both'):
        top.shapes(lc).insert(B(-20000, 0, -18000, 500))
        if toppin:
            top.shapes(lp).insert(B(-19900, 50, -19500, 450))
        if toplab:
            top.shapes(lt).insert(kdb.Text('Z', -19700, 200))
    if tops in ('bridge', 'both'):
        top.shapes(lc).insert(B(-200, -100, 7000, 100))
        if toppin:
            top.shapes(lp).insert(B(50, -50, 80, 50))
        if toplab:
            top.shapes(lt).insert(kdb.Text('Y', 60, 0))
    return ly, top


def components(ly, top, layers, gds, conn):
    fig = []
    for l in layers:
        li = ly.find_layer(*gds[l])
        if li is None:
            continue
        it = top.begin_shapes_rec(li)
        while not it.at_end():
            fig.append((l, it.shape().box.transformed(it.trans()), tuple(e.inst().cell_index for e in it.path())
                        and tuple(str(e.specific_trans()) + str(e.inst().cell_index) for e in it.path())))
            it.next()
    par = list(range(len(fig)))

    def find(i):
        while par[i] != i:
            i = par[i]
        return i
    for i, j in itertools.combinations(range(len(fig)), 2):
        if (fig[i][0] == fig[j][0] or frozenset((fig[i][0], fig[j][0])) in conn) and fig[i][1].touches(fig[j][1]):
            par[find(i)] = find(j)
    comps = {}
    for i in range(len(fig)):
        comps.setdefault(find(i), []).append(fig[i])
    return list(comps.values())


def run_hier(c):
    _, pdk, lev, order, tree, tops, sublab, subpin, toplab, toppin, floating = c
    cond, text, pin = pylvs.LEVELS[pdk][lev]
    gds = pylvs.gds_of(pdk)
    conn = {frozenset(x) for x in pylvs.connections(pdk)}
    metal = next(l['original_layer_name'] for l in computed(pdk) if l['layer_info']['name'] == cond)
    real = next(l for l in pylvs.tech_json(pdk)['layers'] if l['name'] == metal)['drw_gds_pair']
    real = (real['layer'], real.get('datatype', 0))
    out = []
    ly, top = hier(pdk, lev, order, tree, tops, sublab, subpin, toplab, toppin)
    comps = components(ly, top, (cond, pin), gds, conn)
    texts = []
    it = top.begin_shapes_rec(ly.find_layer(*gds[text]))
    while not it.at_end():
        texts.append((it.shape().text.transformed(it.trans()), len(it.path())))
        it.next()

    def mk():
        l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
        rc, rp = (l2n.make_layer(ly.layer(*gds[x]), x) for x in (cond, pin))
        rt = l2n.make_text_layer(ly.layer(*gds[text]), text)
        l2n.connect(rc)
        l2n.connect(rp)
        l2n.connect(rc, rp)
        l2n.connect(rc, rt)
        l2n.include_floating_subcircuits = floating
        l2n.extract_netlist()
        return l2n
    for how, l2n in variants(mk):
        if how == 'memory' and not floating:
            continue     # (KPEX only uses LVS databases read from a file, these do not have unconnected instances)
        what = f"{pdk} {cond} cells {tree} created {order}, top {tops}, sub label/pin {sublab}/{subpin}, " \
               f"top label/pin {toplab}/{toppin}, floating {floating} ({how})"
        ctx = rcx.context(l2n, pdk)
        # an instance without connection to its surroundings may be left out by KLayout unless told otherwise
        here = []
        for comp in comps:
            inst = {p for _, _, p in comp}
            if floating or () in inst or len({p[:1] for p in inst}) > 1 and len(inst) > 1:
                here.append(comp)
        def verify(here):
            exp = {cond: [], pin: []}
            for i, comp in enumerate(here):
                n = ('#', i)
                for t, depth in texts:
                    if depth == 0 and any(l == cond and b.contains(t.position()) for l, b, _ in comp):
                        n = t.string
                for l in (cond, pin):
                    r = kdb.Region([b for k, b, _ in comp if k == l]).merged()
                    exp[l] += [(p, n) for p in r.each()]
            areas = {l: sum(b.area() for comp in here for k, b, _ in comp if k == l) for l in (cond, pin)}
            return check_shapes(ctx, what, exp, pdk, areas)    # (shapes of different cells may overlap)
        have = {l: ctx.shapes_of_layer(gds[l]) or kdb.Region() for l in (cond, pin)}
        here += [comp for comp in comps if comp not in here and
                 all((kdb.Region(b) - have[l]).is_empty() for l, b, _ in comp)]
        r = verify(here)
        # pins
        got = ctx.pins_pb2_by_layer
        bad = [k for k in got if k != real and got[k]]
        if bad:
            raise V(f"{what}: pins on layers {bad}")
        region = ctx.shapes_of_layer(gds[cond])

        def net_at(pos):
            for p in (region.each() if region is not None else ()):
                if p.inside(pos):
                    return p.property('net')
        seen = []
        for p in got.get(real, []):
            pos = kdb.Point(p.label_point.x, p.label_point.y)
            if not any(t.string == p.label and t.position() == pos for t, _ in texts):
                raise V(f"{what}: pin {p.label} at {pos}, where there is no such label")
            if p.net_name != net_at(pos) or p.label_point.net != p.net_name:
                raise V(f"{what}: pin {p.label} at {pos} has net {p.net_name!r} / {p.label_point.net!r}, drawn net "
                        f"{net_at(pos)}")
            if (p.layer.canonical_layer_name, p.layer.lvs_layer_name) != (metal, cond):
                raise V(f"{what}: pin {p.label} is on layer {p.layer.canonical_layer_name} ({p.layer.lvs_layer_name})")
            if (p.label, str(pos)) in seen:
                raise V(f"{what}: pin {p.label} at {pos} twice", key='pin-twice')
            seen.append((p.label, str(pos)))
        pinboxes = [b for comp in here for l, b, _ in comp if l == pin]
        for t, depth in texts:
            if any(b.contains(t.position()) for b in pinboxes):
                if (t.string, str(t.position())) not in seen:
                    raise V(f"{what}: label {t.string} at {t.position()} (depth {depth}) on a pin is not reported, "
                            f"pins {seen}", key=f'pin-missing-{depth}')
            elif (t.string, str(t.position())) in seen:
                raise V(f"{what}: label {t.string} without pin shape reported as pin")
        out.append((r, tuple(sorted(seen))))
    return str(out)


# ------------------------------------------------------------------ C: devices
def run_device(c):
    _, pdk, kind, n, placement, named, bb, tied, shared = c
    gds = pylvs.gds_of(pdk)
    lays = {SKY: ('met1_con', 'met2_con', 'poly_con', 'li_con'),
            IHP: ('metal1_con', 'metal2_con', 'poly_con', 'metal3_con')}[pdk]
    m1, m2, pl, m3 = lays
    figs, terms = device_figs(kind, lays)
    ly = kdb.Layout()
    ly.dbu = 0.001
    tops = [ly.create_cell('TOP')] if n % 2 else []
    dev = ly.create_cell('DEV') if placement != 'flat' else None
    if not tops:
        tops = [ly.create_cell('TOP')]
    top = tops[0]
    pos = [kdb.Trans(0, 0)] + [kdb.Trans(1, False, 9000 * i, 500) for i in range(1, n)]
    for l in figs:
        li = ly.layer(*gds[l])
        for b in figs[l]:
            if dev is not None:
                dev.shapes(li).insert(b)
            else:
                for t in pos:
                    top.shapes(li).insert(b.transformed(t))
    if dev is not None:
        for t in pos:
            top.insert(kdb.CellInstArray(dev.cell_index(), t))
    if tied:    # two terminals on one net, by a strap on the second metal
        via = {SKY: 'via1_con', IHP: 'via1_drw'}[pdk]
        for l, bs in tie_figs(kind, via, m2).items():
            for b in bs:
                for t in pos:
                    top.shapes(ly.layer(*gds[l])).insert(b.transformed(t))
    # top level wires name (and hold) every terminal net
    labels = {}
    for i, t in enumerate(pos):
        for k, (l, at) in enumerate(sorted(terms.values(), key=str)):
            p = t * at
            top.shapes(ly.layer(*gds[l])).insert(B(p.x - 5, p.y - 5, p.x + 5, p.y + 5))
            kk = k if not tied or l == pl else 0
            nm = f'N{"" if shared == kk or shared == "all" else i}_{kk}' if named else None
            labels[(i, (l, str(at)))] = nm
            if named:
                txt = pylvs.text_layer_of(pdk, l)
                top.shapes(ly.layer(*gds[txt])).insert(kdb.Text(nm, p.x, p.y))
    out = []

    def mk():
        l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
        use = sorted(set(figs) | {l for l, _ in terms.values()} | (set(tie_figs(kind, via, m2)) if tied else set()))
        regs = {l: l2n.make_layer(ly.layer(*gds[l]), l) for l in use}
        tx = {l: l2n.make_text_layer(ly.layer(*gds[pylvs.text_layer_of(pdk, l)]), pylvs.text_layer_of(pdk, l))
              for l in use if l in [m for m, _, _ in pylvs.LEVELS[pdk]]}
        ex, em = {'cap': (lambda: kdb.DeviceExtractorCapacitor('mycap', 2e-15), {'P1': m1, 'P2': m2}),
                  'res': (lambda: kdb.DeviceExtractorResistor('myres', 50.0), {'R': pl, 'C': m1}),
                  'mos3': (lambda: kdb.DeviceExtractorMOS3Transistor('mymos'), {'SD': m1, 'G': pl}),
                  'diode': (lambda: kdb.DeviceExtractorDiode('mydio'), {'P': m1, 'N': m2})}[kind]
        l2n.extract_devices(ex(), {t: regs[l] for t, l in em.items()})
        for l in use:
            l2n.connect(regs[l])
        if tied:
            l2n.connect(regs[via], regs[m1])
            l2n.connect(regs[via], regs[m2])
        for l in tx:
            l2n.connect(regs[l], tx[l])
        if shared is not None:      # the devices have a net (or all their nets) in common
            l2n.join_net_names('N_*')
        l2n.extract_netlist()
        return l2n
    for how, l2n in variants(mk):
        what = (f"{pdk} {n} x {kind} ({placement}, named {named}, tied {tied}, shared {shared}, blackbox {bb}, "
                f"{how})")
        ctx = rcx.context(l2n, pdk, blackbox=bb)
        dd = ctx.devices_by_name
        if len(dd) != n:
            raise V(f"{what}: devices {sorted(dd)}")
        net = {}
        objs = {d.expanded_name(): d for d in ctx.top_circuit.each_device()}
        # terminals for which KLayout has no geometry (it may lose it for devices in cells placed more than once)
        lost = set()
        for o in ctx.top_circuit.each_net():
            for nt in o.each_terminal():
                if placement == 'cell' and not ctx.lvsdb.shapes_of_terminal(nt):
                    lost.add((nt.device().expanded_name(), nt.terminal_def().name))
        used = []
        for name, d in dd.items():
            if name != d.device_name or name not in objs:
                raise V(f"{what}: device {name} is called {d.device_name}, netlist {sorted(objs)}")
            o = objs[name]
            cls = {'cap': 'mycap', 'res': 'myres', 'mos3': 'mymos', 'diode': 'mydio'}[kind]
            if d.device_class_name != cls:
                raise V(f"{what}: device {name} has class {d.device_class_name}")
            par = {p.name: p.value for p in d.parameters}
            for k, v in expected_params(kind).items():
                if k not in par or not core.close(par[k], v, 1e-9, 1e-20):
                    raise V(f"{what}: device {name} has parameter {k} = {par.get(k)}, drawn {v}")
            tn = [t.name for t in d.terminals]
            if tn != sorted(tn, key=[x for x, _ in TERMS[kind]].index) or tn != [x for x, _ in TERMS[kind]]:
                raise V(f"{what}: device {name} has terminals {tn}")
            # which placement is it?
            hits = []
            for i, t in enumerate(pos):
                ok = {}
                for tt in d.terminals:
                    regs = {}
                    for rbl in tt.region_by_layer:
                        r = kdb.Region()
                        for pg in rbl.region.polygons:
                            r.insert(kdb.Polygon([kdb.Point(q.x, q.y) for q in pg.hull_points]))
                        regs[rbl.layer.canonical_layer_name] = r
                    ok[tt.name] = regs
                want = {}
                for tname, opts in term_geometry(kind, lays).items():
                    want[tname] = [{canon(pdk, l): kdb.Region([b.transformed(t) for b in bs]) for l, bs in o_.items()}
                                   for o_ in opts]
                m_ = match(ok, want, {x for dn, x in lost if dn == name})
                if m_ is not None:
                    hits.append((i, m_))
            if len(hits) != 1:
                g = {tt.name: [(r.layer.canonical_layer_name, [[(q.x, q.y) for q in pg.hull_points]
                     for pg in r.region.polygons]) for r in tt.region_by_layer] for tt in d.terminals}
                raise V(f"{what}: terminals of device {name} match {len(hits)} drawn devices: {g}")
            i, m_ = hits[0]
            used.append(i)
            for tt in d.terminals:
                at = terms[term_key(kind, tt.name, m_[tt.name])]
                exp = labels[(i, (at[0], str(at[1])))]
                if named and tt.net_name != exp:
                    raise V(f"{what}: terminal {tt.name} of device {name} is on net {tt.net_name}, drawn {exp}")
                shp = ctx.shapes_of_net(gds[at[0]], tt.net_name)
                p = pos[i] * at[1]
                if shp is None or (shp & kdb.Region(B(p.x - 5, p.y - 5, p.x + 5, p.y + 5))).is_empty():
                    raise V(f"{what}: net {tt.net_name} of terminal {tt.name} of {name} is not at the terminal")
                if tt.device_id != d.id or d.id != o.id():
                    raise V(f"{what}: device {name} has ids {d.id}/{tt.device_id}")
        if sorted(used) != list(range(n)):
            raise V(f"{what}: devices {used} of {n} reported")
        out.append(sorted(dd))
    return str(out)


TERMS = {'cap': [('A', 0), ('B', 1)], 'res': [('A', 0), ('B', 1)], 'mos3': [('S', 0), ('G', 1), ('D', 2)],
         'diode': [('A', 0), ('C', 1)]}


def tie_figs(kind, via, m2):
    if kind in ('cap', 'diode'):
        return {via: [B(300, 300, 400, 400)]}
    if kind == 'res':
        return {via: [B(-80, 50, -20, 100), B(2100, 50, 2200, 100)], m2: [B(-100, 50, 2300, 100)]}
    return {via: [B(-300, 700, -200, 800), B(400, 700, 500, 800)], m2: [B(-300, 700, 500, 800)]}


def device_figs(kind, lays):
    """figures per layer; {terminal spot: (layer, point)} where top level wires touch the terminal's net"""
    m1, m2, pl, m3 = lays
    P = kdb.Point
    if kind in ('cap', 'diode'):
        return {m1: [B(0, 0, 1000, 1000)], m2: [B(200, 0, 800, 800)]}, \
            {'0': (m1, P(50, 50)), '1': (m2, P(300, 100))}
    if kind == 'res':
        return {pl: [B(0, 0, 2000, 200)], m1: [B(-100, 0, 0, 200), B(2000, 0, 2300, 200)]}, \
            {'l': (m1, P(-50, 100)), 'r': (m1, P(2200, 100))}
    return {m1: [B(-500, 0, 0, 1000), B(250, 0, 850, 1000)], pl: [B(0, 0, 250, 1000)]}, \
        {'l': (m1, P(-100, 100)), 'r': (m1, P(500, 100)), 'g': (pl, P(100, 500))}


def expected_params(kind):
    return {'cap': {'C': 0.6 * 0.8 * 2e-15, 'A': 0.48, 'P': 2.8},
            'res': {'R': 50.0 * 10, 'L': 2.0, 'W': 0.2, 'A': 0.4, 'P': 4.4},
            'mos3': {'L': 0.25, 'W': 1.0},
            'diode': {'A': 0.48, 'P': 2.8}}[kind]


def term_geometry(kind, lays):
    """terminal -> possible {layer: boxes} (source and drain may be either side)"""
    m1, m2, pl, m3 = lays
    if kind in ('cap', 'diode'):
        o = B(200, 0, 800, 800)
        a, b = TERMS[kind][0][0], TERMS[kind][1][0]
        return {a: [{m1: [o]}], b: [{m2: [o]}]}
    if kind == 'res':
        l, r = {m1: [B(-100, 0, 0, 200)]}, {m1: [B(2000, 0, 2300, 200)]}
        return {'A': [l, r], 'B': [l, r]}
    l, r = {m1: [B(-500, 0, 0, 1000)]}, {m1: [B(250, 0, 850, 1000)]}
    return {'S': [l, r], 'D': [l, r], 'G': [{pl: [B(0, 0, 250, 1000)]}]}


def term_key(kind, name, opt):
    if kind in ('cap', 'diode'):
        return str([t for t, _ in TERMS[kind]].index(name))
    if name == 'G':
        return 'g'
    return 'lr'[opt]


def canon(pdk, l):
    return next(x['original_layer_name'] for x in computed(pdk) if x['layer_info']['name'] == l)


def match(got, want, lost=()):
    m_ = {}
    for t, opts in want.items():
        g = got.get(t)
        for k, o in enumerate(opts):
            if g is not None and (set(g) == set(o) and all(xor_empty(g[l], o[l]) for l in o) or t in lost and not g) and k not in \
                    [v for u, v in m_.items() if len(want[u]) > 1 and len(opts) > 1]:
                m_[t] = k
                break
        else:
            return None
    return m_


# ------------------------------------------------------------------ D: exchange format
def run_convert(c):
    _, kind, what_, net, scale = c
    cv = ShapesConverter(dbu=0.001)
    if what_ == 'point':
        p = kdb.Point(scale, -7)
        q = shapes_pb2.Point()
        cv.klayout_point_to_pb(p, q)
        if cv.klayout_point(q) != p:
            raise V(f"point {p} comes back as {cv.klayout_point(q)}")
        return 'point'
    if what_ == 'box':
        b = shapes_pb2.Box()
        b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y = -5, -6, scale, 3
        if net:
            b.net = net
        r = cv.klayout_box(b)
        g = r.property('net') if net else None
        if kdb.Box(r.left, r.bottom, r.right, r.top) != B(-5, -6, scale, 3) or (g or None) != (net or None):
            raise V(f"box {b} comes back as {r} with net {g}")
        return 'box'
    pg = poly(kind, 0, 0, scale)
    pgs = [pg] if what_ == 'polygon' else [pg, poly(kind, 5000 * scale, 0, scale)]
    reg = kdb.Region()
    reg.enable_properties()
    for i, x in enumerate(pgs):
        reg.insert(kdb.PolygonWithProperties(x, {'net': net + str(i)[:i]} if net else {}))
    pb = shapes_pb2.Region()
    cv.klayout_region_to_pb(reg, pb)
    pb2 = shapes_pb2.Region()
    pb2.ParseFromString(pb.SerializeToString())
    back = cv.klayout_region(pb2)
    if back.count() != len(pgs) or not xor_empty(back, pgs):
        raise V(f"region {[str(p) for p in pgs]} comes back as {back}")
    if sum(p.area() for p in back.each()) != sum(p.area() for p in pgs):
        raise V(f"region {[str(p) for p in pgs]} comes back with area {[p.area() for p in back.each()]}")
    for i, x in enumerate(pgs):
        hit = [p for p in back.each() if xor_empty([p], [x])]
        if len(hit) != 1 or (hit[0].property('net') or None) != (net + str(i)[:i] if net else None):
            raise V(f"polygon {x} of net {net and net + str(i)[:i]} comes back as {[(str(p), p.property('net')) for p in hit]}")
        one = shapes_pb2.Polygon()
        cv.klayout_polygon_to_pb(kdb.PolygonWithProperties(x, {'net': net} if net else {}), one)
        p = cv.klayout_polygon(one)
        if not xor_empty([p], [x]) or p.area() != x.area() or ((net or None) != (p.property('net') if net else None)):
            raise V(f"polygon {x} of net {net!r} comes back as {p}")
    return f'{what_} {kind} {bool(net)}'


def run_split(c):
    """a metal drawn on several computed layers (regular, below a capacitor plate, ..) still has each pin once"""
    _, pdk, metal, layers, where, bb = c
    gds = raw_gds(pdk)
    lev = next(i for i, (m, _, _) in enumerate(pylvs.LEVELS[pdk]) if canon(pdk, m) == metal)
    cond, text, pin = pylvs.LEVELS[pdk][lev]
    shapes = {l: [B(i * 3000, 0, i * 3000 + 1000, 1000)] for i, l in enumerate(layers)}
    if cond not in shapes:
        shapes[cond] = [B(-9000, 0, -8000, 1000)]
    labels = []
    shapes[pin] = []
    at = layers.index(cond) * 3000 if cond in layers else -9000
    exp = []
    for k, on in enumerate(where):
        x = at + 200 + 300 * k
        if on & 1:
            shapes[pin].append(B(x - 50, 100, x + 50, 300))
        if on & 2:
            labels.append((cond, f'P{k}' if not k or not (where[0] & 2) else 'P0', x, 200))
        if on == 3:
            exp.append((labels[-1][1], x, 200))
    if not shapes[pin]:
        del shapes[pin]
    real = next(l for l in pylvs.tech_json(pdk)['layers'] if l['name'] == metal)['drw_gds_pair']
    real = (real['layer'], real.get('datatype', 0))
    out = []
    for how, l2n in variants(lambda: pylvs.make(pdk, shapes, labels, gds=gds)):
        what = f"{pdk} {metal} drawn on {layers}, pins/labels {where}, blackbox {bb} ({how})"
        ctx = rcx.context(l2n, pdk, blackbox=bb)
        got = ctx.pins_pb2_by_layer
        pins = [(p.label, p.label_point.x, p.label_point.y, p.layer.lvs_layer_name) for p in got.get(real, [])]
        have = {l for l in shapes if l != pin and not (bb and is_device(
            next(x for x in computed(pdk) if x['layer_info']['name'] == l)))}
        # (one pin entry per LVS layer of the metal; the layer the pin lies on must be among them)
        if len(set(pins)) != len(pins) or {p[:3] for p in pins} != set(exp) or {p[3] for p in pins} - have or \
                any(e + (cond,) not in pins for e in exp) or [k for k in got if k != real and got[k]]:
            raise V(f"{what}: pins {pins}, drawn {exp}")
        for p in got.get(real, []):
            if p.net_name != p.label or p.layer.canonical_layer_name != metal:
                raise V(f"{what}: pin {p.label} is on net {p.net_name!r}, layer {p.layer.canonical_layer_name}")
        out.append(pins)
    return str(out)


def run_diagpin(c):
    """pins of different nets whose bounding boxes overlap"""
    _, pdk, lev, rot, first, shape = c
    cond, _, pin = pylvs.LEVELS[pdk][lev]
    t = TR[rot]
    P = kdb.Point
    a = kdb.Polygon([P(0, 0), P(0, 4000), P(4000, 0)] if shape == 'triangle' else
                    [P(0, 0), P(0, 800), P(3200, 4000), P(4000, 4000), P(4000, 3200), P(800, 0)]).transformed(t)
    b = kdb.Polygon(B(2500, 2500, 3500, 3500) if shape == 'triangle' else B(2600, 200, 3400, 1000)).transformed(t)
    labels = [(cond, 'A', *(lambda p: (p.x, p.y))(t * P(300, 300))), (cond, 'B', *(lambda p: (p.x, p.y))(t * P(3000, 3000) if shape == 'triangle' else t * P(3000, 600)))]
    ps = [a, b] if first else [b, a]
    for how, l2n in variants(lambda: pylvs.make(pdk, {cond: ps, pin: ps}, labels if rot % 2 else labels[::-1])):
        ctx = rcx.context(l2n, pdk)
        got = sorted((p.label, p.net_name) for l in ctx.pins_pb2_by_layer.values() for p in l)
        if got != [('A', 'A'), ('B', 'B')]:
            raise V(f"{pdk} {cond}: diagonal pin A and pin B within its bounding box have nets {got} (rotation {rot}, {how})")
    return 'diag'


def run_common(c):
    """one net on several layers (a global net), also of the same GDS pair"""
    _, pdk, layers, overlap = c
    gds = raw_gds(pdk)
    ly = kdb.Layout()
    ly.dbu = 0.001
    top = ly.create_cell('TOP')
    exp = {}
    for i, l in enumerate(layers):
        b = poly(KINDS[i % 3], 0 if overlap else 2000 * i, 0)
        top.shapes(ly.layer(*gds[l])).insert(b)
        exp[l] = [(b, 'GLOB')]

    def mk():
        l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
        for l in layers:
            r = l2n.make_layer(ly.layer(*gds[l]), l)
            l2n.connect(r)
            l2n.connect_global(r, 'GLOB')
            l2n._kv = getattr(l2n, '_kv', []) + [r]
        l2n.extract_netlist()
        return l2n
    out = []
    for how, l2n in variants(mk):
        ctx = rcx.context(l2n, pdk)
        out.append(check_shapes(ctx, f"{pdk} global net on {layers} (overlap {overlap}, {how})", exp, pdk))
    return str(out)


def common_cases():
    for pdk in PDKS:
        names = [l['layer_info']['name'] for l in conductors(pdk)]
        for k in (1, 2):
            for ls in itertools.permutations(names, k):
                for overlap in (False, True):
                    yield ('common', pdk, ls, overlap)
        for lev in range(len(pylvs.LEVELS[pdk])):
            for rot in range(8):
                for first in (False, True):
                    for shape in ('triangle', 'diagonal'):
                        yield ('diagpin', pdk, lev, rot, first, shape)


def split_cases():
    for pdk in PDKS:
        for m, _, _ in pylvs.LEVELS[pdk]:
            metal = canon(pdk, m)
            ls = [l['layer_info']['name'] for l in conductors(pdk) if l['original_layer_name'] == metal]
            for k in range(1, len(ls) + 1):
                for layers in itertools.permutations(ls, k):
                    for where in itertools.product(range(4), repeat=2):
                        for bb in (False, True):
                            yield ('split', pdk, metal, layers, where, bb)


def cli_layout(pdk, kind, order, tops, floating):
    """hierarchical layouts on two metals; the flattened variant is the oracle"""
    lev = 1
    ly, top = hier(pdk, lev, order, kind, tops, False, True, True, True)
    gds = pylvs.gds_of(pdk)
    # a metal above everything else, crossing all instances
    top.shapes(ly.layer(*gds[pylvs.LEVELS[pdk][lev + 1][0]])).insert(B(-4000, 100, 12000, 250))
    top.shapes(ly.layer(*gds[pylvs.LEVELS[pdk][lev + 1][1]])).insert(kdb.Text('W', 11000, 200))
    layers = [x for l in (lev, lev + 1) for x in pylvs.LEVELS[pdk][l]]
    return ly, top, layers


def write_lvsdb(pdk, ly, top, layers, floating, path, unknown=None):
    gds = pylvs.gds_of(pdk)
    l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
    texts = {t: m for m, t, _ in pylvs.LEVELS[pdk]}
    regs = {}
    for l in layers:
        i = ly.layer(*gds[l])
        regs[l] = l2n.make_text_layer(i, l) if l in texts else l2n.make_layer(i, 'foo' if l == unknown else l)
    for l, r in regs.items():
        if l not in texts:
            l2n.connect(r)
    for t, m in texts.items():
        if t in regs:
            l2n.connect(regs[m], regs[t])
    for m, _, q in pylvs.LEVELS[pdk]:
        if q in regs:
            l2n.connect(regs[m], regs[q])
    l2n.include_floating_subcircuits = floating
    l2n.extract_netlist()
    l2n.write(path)


def drop_isolated(ly, top, layers, gds):
    for inst in list(top.each_inst()):
        if inst.is_regular_array():
            inst.explode()
    again = []
    for inst in list(top.each_inst()):
        touch = False
        for l in layers:
            li = ly.layer(*gds[l])
            a = kdb.Region(inst.cell.begin_shapes_rec(li)).transformed(inst.trans)
            rest = kdb.Region(top.shapes(li))
            touch = touch or not a.interacting(rest).is_empty()
        if not touch:
            again.append(inst)
    for inst in again:
        inst.delete()


def drawn(ly, top, layer):
    return kdb.Region(top.begin_shapes_rec(ly.layer(*layer))).merged()


def run_cli(c):
    _, pdk, kind, order, tops, floating, mode, unknown = c
    import tempfile
    import glob
    what = f"kpex {mode} {pdk}, cells {kind} created {order}, top {tops}, floating {floating}, unknown layer {unknown}"
    gds = pylvs.gds_of(pdk)
    with tempfile.TemporaryDirectory(prefix='kv') as d:
        caps = []
        for flat in (False, True):
            ly, top, layers = cli_layout(pdk, kind, order, tops, floating)
            if not floating:
                # an LVSDB file does not have instances that are connected to nothing, so leave these out
                drop_isolated(ly, top, layers, gds)
            if flat:
                top.flatten(True)
            w = f"{d}/{'flat' if flat else 'hier'}"
            os.mkdir(w)
            unk = pylvs.LEVELS[pdk][2][0] if unknown else None
            write_lvsdb(pdk, ly, top, layers, floating, f"{w}/t.lvsdb.gz", unk)
            r = cli.kpex(['--pdk', pdk, '--lvsdb', f'{w}/t.lvsdb.gz', '--cell', 'TOP', '--2.5D', '--mode', mode, '--out_dir', f'{w}/out'], w)
            if r.status != 0:
                raise V(f"{what}, {'flat' if flat else 'hierarchical'} LVSDB: {r}")
            run = glob.glob(f'{w}/out/*__TOP')
            if len(run) != 1:
                raise V(f"{what}: output directories {run}")
            if mode == 'CC':
                rows = cli.read_csv(f'{run[0]}/TOP_k25d_pex_netlist.csv')
                caps.append(sorted(x[3] for x in rows if x[3] is not None))
            # dumped layouts
            exp = {gds[l]: drawn(ly, top, gds[l]) for l in layers if l not in [t for _, t, _ in pylvs.LEVELS[pdk]]
                   and l != unk and not drawn(ly, top, gds[l]).is_empty()}
            for f in ('nonempty_LVS_layers.gds.gz', 'l2n_extracted.oas', 'unnamed_LVS_layers.gds.gz'):
                fn = f'{run[0]}/TOP_{f}'
                if f.startswith('unnamed') and not unknown:
                    if os.path.exists(fn):
                        raise V(f"{what}: {f} written though all layers are known")
                    continue
                if not os.path.exists(fn):
                    raise V(f"{what}: {f} not written")
                o = kdb.Layout()
                o.read(fn)
                if o.top_cell().name != 'TOP' or o.dbu != ly.dbu:
                    raise V(f"{what}: {f} has cell {o.top_cell().name}, dbu {o.dbu}")
                got = {}
                for li in o.layer_indexes():
                    rg = kdb.Region(o.top_cell().begin_shapes_rec(li)).merged()
                    if not rg.is_empty():
                        i = o.get_info(li)
                        got[(i.layer, i.datatype)] = got.get((i.layer, i.datatype), kdb.Region()) + rg
                if f.startswith('unnamed'):
                    if len(got) != 1 or not (list(got.values())[0] ^ drawn(ly, top, gds[unk])).is_empty():
                        raise V(f"{what}: {f} does not have the shapes of the unknown layer: {got}")
                    continue
                e = dict(exp)
                if f.startswith('l2n') and unknown:
                    e[gds[unk]] = drawn(ly, top, gds[unk])
                if set(got) - set(e) or any(k not in got or not (got[k] ^ e[k]).is_empty() for k in e):
                    raise V(f"{what}, {'flat' if flat else 'hierarchical'} LVSDB: {f} has "
                            f"{({k: str(v)[:200] for k, v in got.items()})}, drawn {({k: str(v)[:200] for k, v in e.items()})}")
        if mode == 'CC':
            # the same layout, so the same capacitances, in whatever cells it was drawn
            a, b = caps
            if len(a) != len(b) or any(not core.close(x, y, 1e-6, 1.01e-3) for x, y in zip(a, b)):
                raise V(f"{what}: capacitances {a}, of the flattened layout {b}")
        return str(len(caps) and caps[0])


def cli_cases():
    for pdk in PDKS:
        for kind in (('one', 0, 0), ('one', 5, 0), ('two', 0, 0), ('two', 0, 1), ('two', 4, 3), ('deep', 0, 0), ('deep', 5, 2), ('array', 0, 0),
                     ('array', 6, 0), ('flat', 0, 0)):
            for tops in ('none', 'own', 'bridge', 'both'):
                for floating in (False, True):
                    for mode in ('CC', 'R', 'RC'):
                        if not T and mode != 'CC' and (kind[1:] != (0, 0) or tops == 'both'):
                            continue
                        for order in ('sub first', 'top first') if T else ('sub first',):
                            yield ('cli', pdk, kind, order, tops, floating, mode, False)
                if tops in ('own', 'bridge'):
                    yield ('cli', pdk, kind, 'sub first', tops, True, 'CC', True)


BODY = {'cli': run_cli, 'diagpin': run_diagpin, 'common': run_common, 'split': run_split, 'single': run_single, 'named': run_named, 'stack': run_stack, 'unknown': run_unknown, 'hier': run_hier,
        'device': run_device, 'convert': run_convert}


def body(c):
    r = BODY[c[0]](c)
    return {c[0]: 1}, r


def layer_cases():
    for pdk in PDKS:
        for l in conductors(pdk):
            for k in (1, 2, 3) if T else (1, 2):
                for kinds in itertools.product(KINDS, repeat=k) if k < 3 else itertools.combinations(KINDS, 3):
                    yield ('single', pdk, l['layer_info']['name'], kinds)


def named_cases():
    for pdk in PDKS:
        for lev in range(len(pylvs.LEVELS[pdk])):
            for k in (1, 2, 3) if T or lev in (0, 2, 5) else (1, 2):
                for names in itertools.product((None, 'A', 'B', 'a', 'X.Y'), repeat=k):
                    used = [n for n in names if n]
                    if len(set(used)) == len(used):
                        yield ('named', pdk, lev, names, False)
                    else:
                        yield ('named', pdk, lev, names, True)


def stack_cases():
    for pdk in PDKS:
        names = [l['layer_info']['name'] for l in conductors(pdk)]
        for k in (1, 2, 3) if T else (1, 2):
            for ls in itertools.combinations(names, k):
                for shift in (False, True):
                    for named, bb in ((True, False), (True, True), (False, True)):
                        yield ('stack', pdk, ls, shift, named, bb)


def unknown_cases():
    for pdk in PDKS:
        ms = [m for m, _, _ in pylvs.LEVELS[pdk]]
        for k in range(0, 3):
            for known in itertools.combinations(ms, k):
                rest = [m for m in ms if m not in known]
                for u in (1, 2):
                    for unknown in itertools.combinations(rest, u):
                        yield ('unknown', pdk, known, unknown)


def hier_cases():
    for pdk in PDKS:
        for lev in (range(len(pylvs.LEVELS[pdk])) if T else (0, 2, 4)):
            for order in ('top first', 'sub first'):
                trees = [('flat', 0, 0)]
                rot = range(8) if (T or lev == 2) else (0, 5)
                for kind in ('one', 'two', 'deep', 'array'):
                    trees += [(kind, a, b) for a in rot for b in (rot if kind in ('two', 'deep') else (0,))]
                for tree in trees:
                    for tops in ('none', 'own', 'bridge', 'both'):
                        if tops == 'none' and tree[0] == 'flat':
                            continue
                        for lab in itertools.product((False, True), repeat=4):
                            sublab, subpin, toplab, toppin = lab
                            if tops == 'none' and (toplab or toppin) or tree[0] == 'flat' and (sublab or subpin):
                                continue
                            if not (T or lev == 2 and tree[1] == 0) and lab not in (
                                    (True, True, True, True), (True, True, False, False), (False, False, True, True),
                                    (False, False, False, False)):
                                continue
                            for floating in (True, False):
                                if tree[1] not in (0, 5) and not (floating and T) and tree[2]:
                                    continue
                                yield ('hier', pdk, lev, order, tree, tops, sublab, subpin, toplab, toppin, floating)


def device_cases():
    for pdk in PDKS:
        for kind in ('cap', 'res', 'mos3', 'diode'):
            for n in (1, 2, 3):
                for placement in ('flat', 'cell'):
                    for named in (True, False):
                        for bb in (False, True):
                            for tied in (False, True):
                                for shared in ((None, 0, 1, 'all') if named and n > 1 else (None,)):
                                    yield ('device', pdk, kind, n, placement, named, bb, tied, shared)


def convert_cases():
    for kind in KINDS:
        for w in ('polygon', 'region', 'box', 'point'):
            for net in ('', 'A', 'VDD!', 'a.b$1', 'ü'):
                for scale in (1, 3, 1000, 100000):
                    yield ('convert', kind, w, net, scale)


chk.explore(convert_cases(), body, stage='exchange format', chunk=32)
chk.explore(layer_cases(), body, stage='layers', chunk=32)
chk.explore(named_cases(), body, stage='nets', chunk=32)
chk.explore(stack_cases(), body, stage='stacks', chunk=32)
chk.explore(split_cases(), body, stage='split metals', chunk=16)
chk.explore(common_cases(), body, stage='common nets', chunk=32)
chk.explore(unknown_cases(), body, stage='unknown layers', chunk=32)
chk.explore(device_cases(), body, stage='devices', chunk=4)
chk.explore(hier_cases(), body, stage='hierarchies', chunk=32)
chk.explore(cli_cases(), body, stage='command line', chunk=2)
chk.finish()
