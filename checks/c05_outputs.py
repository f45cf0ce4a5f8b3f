"""C05: summary, CSV and SPICE agree with the extraction, nothing lost or invented."""
import itertools
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C05', rule='every multiset of table entries / resistor elements over the name alphabet; every layout x mode x '
                 'blackboxing x PDK through the CLI; outcomes are distinct result tables')
T = chk.thorough
M = rcx.mods()
kdb = M.kdb
from klayout_pex.rcx25 import extraction_results as er
from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
cli.preload()
B = kdb.Box
V = core.Violation


# ------------------------------------------------------------------ independent aggregation
def pair(a, b):
    return frozenset((a, b))


def agg_caps(entries):
    d = {}
    for a, b, v in entries:
        d[pair(a, b)] = d.get(pair(a, b), 0.0) + v
    return d


def agg_res(entries):
    d = {}
    for a, b, v in entries:
        d[pair(a, b)] = d.get(pair(a, b), 0.0) + 1.0 / v
    return {k: 1.0 / g for k, g in d.items()}


def compare(what, exp, got_list, ab=1e-9, rel=1e-9):
    """got_list: [(net1, net2, value)]; every unordered pair exactly once"""
    got = {}
    for a, b, v in got_list:
        if pair(a, b) in got:
            raise V(f"{what}: pair {a} / {b} appears more than once: {got_list}")
        if a == b:
            raise V(f"{what}: {a} with itself: {got_list}")
        got[pair(a, b)] = v
    for k in set(exp) | set(got):
        if k not in got:
            raise V(f"{what}: {sorted(k)} is missing, expected {exp[k]}; got {got_list}")
        if k not in exp:
            raise V(f"{what}: {sorted(k)} = {got[k]} does not exist; expected {exp}")
        if not core.close(exp[k], got[k], rel, ab):
            raise V(f"{what}: {sorted(k)} is {got[k]}, expected {exp[k]}; got {got_list}")


def triples(d):
    return [(k.net1, k.net2, v) for k, v in d.items()]


# ------------------------------------------------------------------ stage summary: synthetic tables
def build(cells):
    """cells: tuple of tuples of entries ('o'|'s'|'f', a, b, layer variant, value) or
    ('r', network index, a, b, value); -> ExtractionResults"""
    res = er.ExtractionResults()
    for i, ents in enumerate(cells):
        c = er.CellExtractionResults(cell_name=f"c{i}")
        nets = {}
        for e in ents:
            if e[0] == 'o':
                _, a, b, l, v = e
                c.add_overlap_cap(er.OverlapCap(er.OverlapKey(('m2', 'm3')[l], a, 'm1', b), v, 0.0, 1.0, None))
            elif e[0] == 's':
                _, a, b, l, v = e
                c.add_sidewall_cap(er.SidewallCap(er.SidewallKey(('m1', 'm2')[l], a, b), v, 1.0, 1.0, None))
            elif e[0] == 'f':
                _, a, b, l, v = e
                c.add_sideoverlap_cap(er.SideOverlapCap(er.SideOverlapKey(('m1', 'm3')[l], a, 'm2', b), v))
            else:
                _, n, a, b, v = e
                nets.setdefault(n, []).append((a, b, v))
        for n, els in sorted(nets.items()):
            nw = c.r_extraction_result.networks.add()
            nw.net_name = f"N{n}"
            ids = {}
            for a, b, v in els:
                for x in (a, b):
                    if x not in ids:
                        # NOTE: ids are only unique within a network
                        ids[x] = len(ids) + 1
                        nd = nw.nodes.add()
                        nd.node_id = ids[x]
                        nd.node_name = f"${ids[x]}"
                        nd.net_name = x
                el = nw.elements.add()
                el.node_a.node_id, el.node_b.node_id, el.resistance = ids[a], ids[b], v
        res.cell_extraction_results[c.cell_name] = c
    return res


def split(cells):
    caps = [(e[1], e[2], e[4]) for ents in cells for e in ents if e[0] != 'r']
    ress = [(e[2], e[3], e[4]) for ents in cells for e in ents if e[0] == 'r']
    return agg_caps(caps), agg_res(ress)


def summary_body(cells):
    res = build(cells)
    s = res.summarize()
    c, r = split(cells)
    compare('capacitances', c, triples(s.capacitances))
    compare('resistances', r, triples(s.resistances))
    s2 = res.summarize()
    if triples(s2.capacitances) != triples(s.capacitances) or triples(s2.resistances) != triples(s.resistances):
        raise V('a second summary differs from the first')
    return {'pairs': len(c) + len(r)}, hash((tuple(sorted((tuple(sorted(k)), v) for k, v in c.items())),
                                             tuple(sorted((tuple(sorted(k)), v) for k, v in r.items()))))


NAMES = ('A', 'b', 'VSUBS')
PAIRS = [(a, b) for a in NAMES for b in NAMES if a != b]
CAPE = [(t, a, b, l, v) for t in 'osf' for a, b in PAIRS for l in (0, 1) for v in (1.0, 0.25)]
RESE = [('r', n, a, b, v) for n in (0, 1) for a, b in PAIRS for v in (2.0, 30.0)]


def summary_cases():
    yield ((),)
    ALL = CAPE + RESE
    for e in ALL:
        yield ((e,),)
    for e, f in itertools.combinations_with_replacement(ALL, 2):
        yield ((e, f),)
        yield ((e,), (f,))
    small = [e for e in CAPE if e[3] == 0 and e[4] == 1.0] + [e for e in RESE if e[1] == 0 or e[4] == 2.0]
    for t in itertools.combinations_with_replacement(small if T else small[::2] if False else small, 3):
        yield (t,)
        if T:
            yield (t[:1], t[1:])


chk.explore(summary_cases(), summary_body, stage='summary', chunk=256)


# ------------------------------------------------------------------ stage expand: synthetic netlists
def netlist(spec):
    """spec: (net names, pins, devices [(kind, name, net per terminal)])"""
    names, pins, devs = spec
    nl = kdb.Netlist()
    c = kdb.Circuit()
    c.name = 'TOP'
    nl.add(c)
    nets = {}
    for n in names:
        x = c.create_net(n)
        nets[n or x.expanded_name()] = x
    byname = {x.expanded_name(): x for x in c.each_net()}
    for p in pins:
        c.connect_pin(c.create_pin(p), byname[p])
    classes = {}
    for kind, name, dn in devs:
        if kind not in classes:
            dc = {'cap': kdb.DeviceClassCapacitor, 'capb': kdb.DeviceClassCapacitorWithBulk,
                  'res': kdb.DeviceClassResistor, 'resb': kdb.DeviceClassResistorWithBulk,
                  'mos4': kdb.DeviceClassMOS4Transistor, 'mos3': kdb.DeviceClassMOS3Transistor,
                  'diode': kdb.DeviceClassDiode, 'bjt': kdb.DeviceClassBJT3Transistor}[kind]()
            dc.name = 'DEV' + kind.upper()
            nl.add(dc)
            classes[kind] = dc
        d = c.create_device(classes[kind], name)
        for t, n in zip(classes[kind].terminal_definitions(), dn):
            d.connect_terminal(t.id(), byname[n])
        if kind in ('cap', 'capb'):
            d.set_parameter('C', 3e-15)
        if kind in ('res', 'resb'):
            d.set_parameter('R', 77.0)
    return nl


def devices(nl):
    c = nl.circuit_by_name('TOP')
    out = []
    for d in c.each_device():
        dc = d.device_class()
        nets = tuple((lambda n: n.expanded_name() if n is not None else None)(d.net_for_terminal(t.id()))
                     for t in dc.terminal_definitions())
        val = d.parameter('C') if isinstance(dc, kdb.DeviceClassCapacitor) else \
            d.parameter('R') if isinstance(dc, kdb.DeviceClassResistor) else None
        out.append((dc.name, d.name, nets, val))
    return out


def sp(n):
    """net name as KLayout writes it into SPICE files"""
    return n.replace(',', '|')


def check_spice(path, cexp, rexp, orig, pins):
    """cexp in fF, rexp in Ohm; orig: [(class, name, nets)] devices that must survive"""
    sub = cli.read_spice(path)
    if list(sub) != ['TOP']:
        raise V(f"SPICE netlist has subcircuits {list(sub)}")
    spins, els = sub['TOP']
    if spins != [sp(p) for p in pins]:
        raise V(f"SPICE netlist has pins {spins}, expected {pins}")
    ext = [e for e in els if e[1].startswith('ext_')]
    rest = [e for e in els if not e[1].startswith('ext_')]
    names = [(e[0], e[1]) for e in els]
    if len(set(names)) != len(names):
        raise V(f"duplicate device names {names}")
    compare('SPICE capacitances [F]', {pair(*(sp(n) for n in k)): v * 1e-15 for k, v in cexp.items()},
            [(e[2][0], e[2][1], e[3]) for e in ext if e[0] == 'c'], ab=1e-26, rel=1e-6)
    compare('SPICE resistances', {pair(*(sp(n) for n in k)): v for k, v in rexp.items()},
            [(e[2][0], e[2][1], e[3]) for e in ext if e[0] == 'r'], ab=1e-9, rel=1e-6)
    # (terminal order and number of transistors are up to KLayout's writer, compared on the netlist itself)
    got = sorted((e[4].upper(), tuple(e[2]) if e[0] in 'cr' else ()) for e in rest)
    exp = sorted((c.upper(), tuple(sp(n) for n in nets) if c in RC_CLASSES else ()) for c, _, nets in orig)
    if got != exp:
        raise V(f"SPICE netlist contains the devices {got}, expected {exp}")


RC_CLASSES = ('DEVCAP', 'DEVCAPB', 'DEVRES', 'DEVRESB', 'mimcap')
WB_REMOVED = ('cap', 'capb')


def expand_body(case):
    spec, ents, bb, res = case
    nl = netlist(spec)
    before = nl.to_s()
    results = build((ents,))
    c, r = split((ents,))
    out = RCX25NetlistExpander().expand(extracted_netlist=nl, top_cell_name='TOP', extraction_results=results,
                                        blackbox_devices=bb)
    if nl.to_s() != before:
        raise V(f"the extracted netlist itself was modified:\n{before}\n{nl.to_s()}")
    keep = [d for d in spec[2] if bb or d[0] not in WB_REMOVED]
    orig = [('DEV' + k.upper(), n, nets) for k, n, nets in keep]
    if os.path.exists('o.spice'):
        os.unlink('o.spice')
    w = kdb.NetlistSpiceWriter()
    w.use_net_names = True
    w.with_comments = False
    out.write('o.spice', w)
    check_spice('o.spice', c, r, orig, spec[1])
    dv = devices(out)
    if sorted(d[:3] for d in dv if not d[1].startswith('ext_')) != sorted(orig):
        raise V(f"devices of the expanded netlist: {dv}")
    ns = [n.expanded_name() for n in out.circuit_by_name('TOP').each_net()]
    if len(set(ns)) != len(ns):
        raise V(f"several nets of the same name: {ns}")
    miss = set(x for x in spec[0] if x) - set(ns)
    if miss:
        raise V(f"nets {miss} disappeared")
    return {'devices': len(dv)}, hash(repr((spec, ents, bb)))


def expand_cases():
    kinds = ['cap', 'capb', 'res', 'resb', 'mos3', 'mos4', 'diode', 'bjt']
    nn = {'cap': 2, 'capb': 3, 'res': 2, 'resb': 3, 'mos3': 3, 'mos4': 4, 'diode': 2, 'bjt': 3}
    netsets = [('A', 'b'), ('A', 'b', 'VSUBS'), ('A', 'b', 'VSUBS', 'x,y')]
    ent_sets = [(), (('o', 'A', 'b', 0, 1.5),), (('o', 'A', 'VSUBS', 0, 1.5), ('s', 'b', 'A', 0, 2.0)),
                (('r', 0, 'A', 'A.$1', 5.0), ('r', 0, 'A.$1', 'A.$2', 0.125), ('r', 1, 'b', 'b.$1', 9.0)),
                (('f', 'b', 'VSUBS', 0, 1e-3), ('r', 0, 'A', 'b.$1', 1e6), ('o', 'NEW', 'A', 0, 123456.0))]
    # names that differ only in case
    cases = [('A', 'z'), ('a', 'z'), ('a', 'A'), ('Z', 'z'), ('A', 'Z')]
    for k in range(1, 6):
        for sub in itertools.combinations(cases, k):
            yield ((('A', 'a', 'z', 'Z'), (), ()), tuple(('o', a, b, 0, 1.0 + i) for i, (a, b) in enumerate(sub)), False, None)
            yield ((('A', 'a', 'z', 'Z'), (), ()), tuple(('r', 0, a, b, 1.0 + i) for i, (a, b) in enumerate(sub)), False, None)
    # all sequences of up to two (thorough: three) devices, then an alternation of many of them
    seqs = [()] + [(k,) for k in kinds] + list(itertools.product(kinds, repeat=2))
    if T:
        seqs += list(itertools.product(kinds, repeat=3))
    seqs += [('cap',) * 5, ('cap', 'res') * 3, ('cap', 'cap', 'res', 'cap', 'mos4', 'cap')]
    for names in netsets:
        for pins in (names, names[:1], ()):
            for seq in seqs:
                devs = tuple((k, f"D{i}", tuple(names[(i + j) % len(names)] for j in range(nn[k])))
                             for i, k in enumerate(seq))
                for ents in ent_sets if len(seq) < 2 or pins == () else ent_sets[2:3]:
                    for bb in (False, True):
                        yield ((names, pins, devs), ents, bb, None)


chk.explore(expand_cases(), expand_body, stage='expand', chunk=64)


# ------------------------------------------------------------------ stage cli
def layouts():
    """name -> (shapes, labels, devices)"""
    S, I = pylvs.SKY, pylvs.IHP
    out = []
    for pdk in (S, I):
        st = pylvs.STACK[pdk]
        lv = pylvs.LEVELS[pdk]
        for i in range(0, len(lv) - 1):
            (a, _, ap), (b, _, bp) = lv[i], lv[i + 1]
            via = st[st.index(a) + 1]
            # a wire of net A on a, via to b; nets b, C beside and above; an unlabelled wire
            sh = {a: [B(0, 0, 20000, 2000), B(0, 3000, 20000, 5000), B(0, 7000, 9000, 9000)],
                  via: [B(500, 500, 1500, 1500)],
                  b: [B(0, 0, 2000, 6000), B(5000, -3000, 8000, 12000)],
                  ap: [B(19000, 0, 20000, 2000), B(19000, 3000, 20000, 5000)],
                  bp: [B(0, 5000, 2000, 6000), B(5000, 11000, 8000, 12000)]}
            lab = [(a, 'A', 19500, 1000), (a, 'b', 19500, 4000), (b, 'C', 6500, 11500), (b, 'VDD', 1000, 5500)]
            out.append((pdk, f"pair{i}", sh, lab[:-1], ()))
            out.append((pdk, f"pair{i}x", sh, [(a, 'x', 19500, 1000), (a, 'X1', 19500, 4000), (b, 'VSUBS', 6500, 11500)], ()))
            out.append((pdk, f"one{i}", {a: [B(0, 0, 5000, 1000)]}, [(a, 'N', 100, 100)], ()))
            out.append((pdk, f"none{i}", {a: [B(0, 0, 5000, 1000), B(0, 3000, 5000, 4000)], b: [B(0, 0, 700, 5000)]}, [], ()))
    for pdk, plate, cap, via, above, below, bv in (
            (S, 'met3_cap', 'capm', 'via3_cap', 'met4_ncap', 'met2_con', 'via2_con'),
            (S, 'met4_cap', 'capm2', 'via4_cap', 'met5_con', 'met3_ncap', 'via3_ncap'),
            (I, 'metal5_cap', 'cmim_top', 'mim_via', 'topmetal1_con', 'metal4_con', 'via4_drw')):
        sh = {below: [B(1000, 0, 3500, 1500)], bv: [B(2200, 200, 2600, 600)], plate: [B(2000, 0, 9000, 7000)],
              cap: [B(3000, 1000, 8000, 6000)], via: [B(4000, 2000, 4400, 2400)], above: [B(3500, 1500, 12000, 3000)]}
        lab = [(below, 'p', 1200, 200), (above, 'q', 11000, 2000)]
        for dev in ((), (('cap', 'mimcap', {'P1': plate, 'P2': cap}),)):
            out.append((pdk, f"mim{len(dev)}{plate}", sh, lab, dev))
        sh2 = {k: v + [x.moved(20000, 300) for x in v] for k, v in sh.items()}
        out.append((pdk, f"mimmim{plate}", sh2, lab + [(l, n + '2', x + 20000, y + 300) for l, n, x, y in lab], dev))
    return out


LAY = layouts()


def lvs_file(i):
    pdk, name, sh, lab, dev = LAY[i]
    l2n = pylvs.make(pdk, sh, lab, devices=dev, path='t.lvsdb.gz')
    devs = []
    for d in l2n.netlist().circuit_by_name('TOP').each_device():
        devs.append((d.device_class().name, d.name or d.expanded_name(),
                     tuple(d.net_for_terminal(t.id()).expanded_name() for t in d.device_class().terminal_definitions()),
                     isinstance(d.device_class(), kdb.DeviceClassCapacitor)))
    return devs


def engine(pdk, bb, mode):
    l2n = kdb.LayoutVsSchematic()
    l2n.read('t.lvsdb.gz')
    res = rcx.extract(l2n, pdk, mode, True, None, bb)
    ov, sw, fr = rcx.tables(res)
    caps = [(k[1], k[3], v) for k, v in ov.items()] + [(k[1], k[2], v) for k, v in sw.items()] + \
           [(k[1], k[3], v) for k, v in fr.items()]
    ress = []
    for c in res.cell_extraction_results.values():
        for nw in c.r_extraction_result.networks:
            d = {n.node_id: n.net_name for n in nw.nodes}
            ress += [(d[e.node_a.node_id], d[e.node_b.node_id], e.resistance) for e in nw.elements]
    return agg_caps(caps), agg_res(ress)


def cli_body(case):
    i, bb = case
    pdk = LAY[i][0]
    devs = lvs_file(i)
    orig = [d[:3] for d in devs if bb or not d[3]]
    caps, _ = engine(pdk, bb, 'CC')
    _, ress = engine(pdk, bb, 'R')
    for mode in ('CC', 'R', 'RC'):
        cexp = caps if 'C' in mode else {}
        rexp = ress if 'R' in mode else {}
        r = cli.kpex(['--pdk', pdk, '--lvsdb', 't.lvsdb.gz', '--out_dir', f"o_{mode}", '--2.5D', '--mode', mode,
                      '--blackbox', str(bb)])
        if r.status != 0:
            raise V(f"mode {mode}: {r!r}")
        base = f"o_{mode}/t__TOP/TOP_k25d_pex_netlist"
        rows = cli.read_csv(base + '.csv')
        for n, k in (('C', 3), ('R', 4)):
            names = [x[0] for x in rows if x[k] is not None]
            if names != [f"{n}{j + 1}" for j in range(len(names))]:
                raise V(f"CSV device names {names}")
        if any((x[3] is None) == (x[4] is None) for x in rows):
            raise V(f"CSV rows with neither or both of C and R: {rows}")
        compare(f"mode {mode}: CSV capacitances [fF]", cexp, [x[1:4] for x in rows if x[3] is not None], ab=5.1e-4, rel=0)
        compare(f"mode {mode}: CSV resistances", rexp, [(x[1], x[2], x[4]) for x in rows if x[4] is not None],
                ab=5.1e-4, rel=0)
        check_spice(base + '.spice', cexp, rexp, orig, [])
    if 'mim' not in LAY[i][1] and 'none' not in LAY[i][1] and not caps:
        raise V('no capacitance at all')
    if 'pair' in LAY[i][1] and not ress:
        raise V('no resistance at all')
    return {'caps': len(caps), 'res': len(ress)}, hash(repr(sorted((sorted(k), v) for k, v in caps.items())))


chk.explore([(i, bb) for i in range(len(LAY)) for bb in (False, True)], cli_body, stage='cli', chunk=2)

# ------------------------------------------------------------------ stage calibration: the CSVs of the test suite
with open(os.path.join(core.VERIF, 'data', 'rcx25_expected.json'), encoding='utf-8') as f:
    EXPECTED = json.load(f)
TGDS = {'poly_con': (66, 20, 5), 'licon_poly_con': (66, 44, None), 'li_con': (67, 20, 5), 'mcon_con': (67, 44, None),
        'met1_con': (68, 20, 5), 'via1_con': (68, 44, None), 'met2_con': (69, 20, 5), 'via2_con': (69, 44, None),
        'met3_ncap': (70, 20, 5)}


def calib_body(name):
    path = os.path.join(core.REPO, 'testdata', 'designs', 'sky130A', 'test_patterns', f"{name}.gds.gz")
    ly = kdb.Layout()
    ly.read(path)
    top = ly.top_cell()
    sh, lab = {}, []
    for n, (l, d, t) in TGDS.items():
        li = ly.find_layer(l, d)
        if li is not None:
            r = kdb.Region(top.begin_shapes_rec(li)).merged()
            if not r.is_empty():
                sh[n] = list(r.each())
        if t is not None and n in sh:
            tl = ly.find_layer(l, t)
            if tl is not None:
                lab += [(n, x.string, x.x, x.y) for x in kdb.Texts(top.begin_shapes_rec(tl)).each()]
    pylvs.make(pylvs.SKY, sh, lab, dbu=ly.dbu, path='t.lvsdb.gz')
    r = cli.kpex(['--pdk', 'sky130A', '--lvsdb', 't.lvsdb.gz', '--out_dir', 'o', '--2.5D', '--mode', 'CC',
                  '--scale', 'n', '--halo', '10000'])
    if r.status != 0:
        raise V(repr(r))
    with open('o/t__TOP/TOP_k25d_pex_netlist.csv', encoding='utf-8') as f:
        got = f.read().split()
    exp = '\n'.join(EXPECTED[name]).split()
    if got != exp:
        raise V(f"CSV of {name}:\n" + '\n'.join(got) + '\nexpected:\n' + '\n'.join(exp))
    return {'rows': len(exp)}, hash(tuple(exp))


chk.explore(sorted(EXPECTED), calib_body, stage='calibration', chunk=1)
chk.finish()
