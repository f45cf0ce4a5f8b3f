"""C11: field solver capacitance matrix -> expanded netlist, CSV and reduced netlist."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, pylvs, rcx

chk = core.Check('C11', rule='every matrix of the alphabet x conductor order x solver naming x netlist variant; every layout x solver '
                 'through the CLI with a stand-in solver; outcomes are distinct result tables')
T = chk.thorough
M = rcx.mods()
kdb = M.kdb
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
from klayout_pex.klayout.netlist_expander import NetlistExpander
from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
from klayout_pex.klayout.netlist_reducer import NetlistReducer
cli.preload()
B = kdb.Box
V = core.Violation
THR = 0.05e-15


def pair(a, b):
    return frozenset((a, b))


# ------------------------------------------------------------------ independent semantics of the matrix
def expected(nets, m):
    """Maxwell matrix [[..]] -> capacitances [(net, net, C)], nets[0] is the substrate"""
    out = []
    n = len(nets)
    for i in range(n):
        for j in range(i + 1, n):
            if -m[i][j] > 0:
                out.append((nets[i], nets[j], -m[i][j]))
        if i:
            s = sum(m[i])
            if s > 0:
                out.append((nets[i], nets[0], s))
    return out


def total(entries):
    d = {}
    for a, b, v in entries:
        d[pair(a, b)] = d.get(pair(a, b), 0.0) + v
    return {k: v for k, v in d.items() if v > 1e-24}      # (below: rounding of the row sums)


def compare(what, exp, entries, ab=1e-24, rel=1e-9):
    got = {}
    for a, b, v in entries:
        if a == b:
            raise V(f"{what}: capacitance {v} of {a} to itself")
        if not v > 0:
            raise V(f"{what}: capacitance {v} between {a} and {b}")
        got[pair(a, b)] = got.get(pair(a, b), 0.0) + v
    for k in set(exp) | set(got):
        a, b = exp.get(k, 0.0), got.get(k, 0.0)
        if not core.close(a, b, rel, ab):
            raise V(f"{what}: between {sorted(k)} there is {b}, expected {a}; got {entries}")


# ------------------------------------------------------------------ netlists
DEV = {'cap': kdb.DeviceClassCapacitor, 'res': kdb.DeviceClassResistor, 'mos3': kdb.DeviceClassMOS3Transistor,
       'capb': kdb.DeviceClassCapacitorWithBulk, 'diode': kdb.DeviceClassDiode}


def netlist(spec):
    """spec: (nets (name, or number = unnamed), pins, devices [(kind, name, nets)], other circuit?)"""
    names, pins, devs, other = spec
    nl = kdb.Netlist()
    if other:
        o = kdb.Circuit()
        o.name = 'SUB'
        nl.add(o)
        on = [o.create_net(x) for x in ('A', 'VSUBS', 'GND')]
        for x in on:
            o.connect_pin(o.create_pin(x.name), x)
    c = kdb.Circuit()
    c.name = 'TOP'
    nl.add(c)
    by = {}
    for n in names:
        if isinstance(n, int):
            x = c.create_net('')
            x.cluster_id = n
        else:
            x = c.create_net(n)
        by[n] = x
    for p in pins:
        c.connect_pin(c.create_pin(p if isinstance(p, str) else ''), by[p])
    cl = {}

    def dev(circ, kind, name, nets):
        if kind not in cl:
            cl[kind] = DEV[kind]()
            cl[kind].name = 'D' + kind
            nl.add(cl[kind])
        d = circ.create_device(cl[kind], name)
        for t, x in zip(cl[kind].terminal_definitions(), nets):
            d.connect_terminal(t.id(), x)
        for p in cl[kind].parameter_definitions():
            if p.name in 'CR':
                d.set_parameter(p.id(), 7e-15 if p.name == 'C' else 55.0)
    for kind, name, dn in devs:
        dev(c, kind, name, [by[x] for x in dn])
    if other:
        dev(o, 'mos3', 'X', on)
        sc = c.create_subcircuit(o, 's1')
        for p, x in zip(o.each_pin(), itertools.cycle(by.values())):
            sc.connect_pin(p, x)
    return nl


def exp_name(n):
    return f"${n}" if isinstance(n, int) else n


def conductor(style, k, n):
    return f"g{k + 1}_{exp_name(n)}" if style == 'fc' else f"{exp_name(n)}%GROUP{k + 1}"


def devices(nl, circuit='TOP'):
    c = nl.circuit_by_name(circuit)
    out = []
    for d in c.each_device():
        dc = d.device_class()
        nets = tuple((lambda n: n.expanded_name() if n is not None else None)(d.net_for_terminal(t.id()))
                     for t in dc.terminal_definitions())
        val = d.parameter('C') if isinstance(dc, kdb.DeviceClassCapacitor) else \
            d.parameter('R') if isinstance(dc, kdb.DeviceClassResistor) else None
        out.append((dc.name, d.name, nets, val))
    return out


def circuit_text(nl, name):
    c = nl.circuit_by_name(name)
    return (sorted(n.expanded_name() for n in c.each_net()), sorted(map(repr, devices(nl, name))),
            [p.name() for p in c.each_pin()], sorted((s.name, s.circuit_ref().name,
                                                      [(lambda n: n and n.expanded_name())(s.net_for_pin(p.id()))
                                                       for p in s.circuit_ref().each_pin()]) for s in c.each_subcircuit()))


def parts(nl):
    dv = devices(nl)
    caps = [(d[2][0], d[2][1], d[3]) for d in dv if d[0] == 'PEX_CAP']
    ress = [(d[2][0], d[2][1], d[3]) for d in dv if d[0] == 'PEX_RES']
    rest = sorted(d for d in dv if not d[0].startswith('PEX_'))
    names = [d[1] for d in dv if d[0].startswith('PEX_')]
    if len(set(names)) != len(names):
        raise V(f"duplicate device names {names}")
    return caps, ress, rest


def groups(ress):
    """nets joined by 0 Ohm resistors -> {net: representative}"""
    rep = {}

    def find(a):
        while rep.get(a, a) != a:
            a = rep[a]
        return a
    for a, b, v in ress:
        if v != 0:
            raise V(f"resistance {v} between {a} and {b} in a capacitance netlist")
        rep[find(a)] = find(b)
    return find


def read_csv(path):
    with open(path, encoding='utf-8') as f:
        ls = f.read().split('\n')
    if ls[0] != 'Device;Net1;Net2;Capacitance [fF]' or ls[-1] != '':
        raise V(f"CSV header or end: {ls}")
    return [(l.split(';')[1], l.split(';')[2], float(l.split(';')[3])) for l in ls[1:-1]
            if len(l.split(';')) == 4 or (_ for _ in ()).throw(V(f"CSV line {l!r}"))]


def check_csv(path, exp_entries):
    rows = read_csv(path)
    got, n = {}, {}
    for a, b, v in rows:
        if a == b or not a or not b:
            raise V(f"CSV row {a!r} {b!r} {v}")
        got[pair(a, b)] = got.get(pair(a, b), 0.0) + v
    exp = total(exp_entries)
    for a, b, _ in exp_entries:
        n[pair(a, b)] = n.get(pair(a, b), 0) + 1
    for k in set(exp) | set(got):
        if abs(exp.get(k, 0.0) * 1e15 - got.get(k, 0.0)) > 0.00501 * n.get(k, 1) + 1e-9 * exp.get(k, 0.0) * 1e15:
            raise V(f"CSV: {sorted(k)} is {got.get(k)} fF, expected {exp.get(k, 0.0) * 1e15}: {rows}")
        if k not in exp and k not in n:
            raise V(f"CSV: invented {sorted(k)}: {rows}")


def expand_body(case, keep=None):
    spec, order, style, m, bb = case
    names, pins, devs, other = spec
    nl = netlist(spec)
    text = circuit_text(nl, 'TOP')
    before = [d for d in devices(nl)]
    sub = circuit_text(nl, 'SUB') if other else None
    cond = [conductor(style, k, n) for k, n in enumerate(order)]
    rows = [list(r) for r in m]
    out = NetlistExpander.expand(extracted_netlist=nl, top_cell_name='TOP',
                                 cap_matrix=CapacitanceMatrix(conductor_names=list(cond), rows=rows), blackbox_devices=bb)
    if circuit_text(nl, 'TOP') != text:
        raise V('the extracted netlist itself was modified')
    if [list(r) for r in m] != rows:
        raise V('the matrix was modified')
    if other and circuit_text(out, 'SUB') != sub:
        raise V(f"another circuit was modified: {circuit_text(out, 'SUB')}")
    exp = expected([exp_name(n) for n in order], m)
    caps, ress, rest = parts(out)
    compare('expanded netlist', total(exp), caps)
    if rest != sorted(before if bb else []):
        raise V(f"devices of the expanded netlist {rest}, expected {before if bb else []}")
    t2 = circuit_text(out, 'TOP')
    if [n for n in text[0] if n not in t2[0]] or len(set(t2[0])) != len(t2[0]):
        raise V(f"nets {text[0]} became {t2[0]}")
    if t2[2] != text[2] or t2[3] != text[3]:
        raise V(f"pins or subcircuits changed: {text[2:]} {t2[2:]}")
    # only the solver's ground, VSUBS and GND may be joined
    f = groups(ress)
    for a, b in itertools.combinations(t2[0], 2):
        if f(a) == f(b) and not {a, b} <= {'GND', 'VSUBS', 'FC_GND'}:
            raise V(f"nets {a} and {b} are shorted: {ress}")
    if f('VSUBS') != f('GND') or f('FC_GND') != f('GND'):
        raise V(f"VSUBS, FC_GND and GND are not one node: {ress}")
    NetlistCSVWriter.write_csv(netlist=out, top_cell_name='TOP', output_path='o.csv')
    check_csv('o.csv', exp)
    if out is not None:
        reduce_check(out, caps, ress, rest, pins, t2)
    return {'caps': len(caps)}, hash(repr((style, total(exp).items() and sorted((sorted(k), v) for k, v in total(exp).items()))))


# ------------------------------------------------------------------ reduction: electrical equivalence
def maxwell(entries, f):
    g = {}
    for a, b, v in entries:
        a, b = f(a), f(b)
        if a != b:
            g.setdefault(a, {}).setdefault(b, 0.0)
            g.setdefault(b, {}).setdefault(a, 0.0)
            g[a][b] += v
            g[b][a] += v
    return g


def eliminate(g, x):
    nb = g.pop(x, {})
    s = sum(nb.values())
    for y in nb:
        g[y].pop(x)
    for y, z in itertools.combinations(nb, 2):
        v = nb[y] * nb[z] / s
        g[y][z] = g[y].get(z, 0.0) + v
        g[z][y] = g[z].get(y, 0.0) + v


def reduce_check(out, caps, ress, rest, pins, t2):
    text = circuit_text(out, 'TOP')
    red = NetlistReducer.reduce(netlist=out, top_cell_name='TOP')
    if circuit_text(out, 'TOP') != text:
        raise V('the expanded netlist was modified by the reduction')
    rc, rr, rrest = parts(red)
    rt = circuit_text(red, 'TOP')
    if rt[2] != t2[2] or rt[3] != t2[3]:
        raise V(f"pins or subcircuits changed by the reduction: {rt[2:]} {t2[2:]}")
    used = {x for d in rest for x in d[2]} | {exp_name(p) for p in pins} | {x for s in t2[3] for x in s[2]}
    for x in used:
        if x not in rt[0]:
            raise V(f"net {x} disappeared in the reduction, although something is connected to it")
    rt = ([x for x in rt[0] if x in used or any(x in d[2] for d in devices(red))],) + rt[1:]     # (without dangling nets)
    # (devices of the layout, merged if parallel, keep their class)
    if {d[0] for d in rest} != {d[0] for d in rrest}:
        raise V(f"devices {rest} were reduced to {rrest}")
    f = groups(ress)
    g = maxwell(caps, f)
    # the grounds are one node, all other nets stay themselves
    fr = groups(rr)
    gr = {}

    def canon(n):
        return f(n)
    for a, b, v in rc:
        if v < THR:
            raise V(f"the reduced netlist contains {v} F between {a} and {b}")
        if a == b:
            raise V(f"capacitance of {a} to itself")
    for a, b in itertools.combinations([x for x in rt[0]], 2):
        if fr(a) == fr(b) and f(a) != f(b):
            raise V(f"the reduction shorts {a} and {b}: {rr} {rc} {rt}")
        if f(a) == f(b) and fr(a) != fr(b):
            raise V(f"the reduction separates {a} and {b}: {rr}")
    gr = maxwell(rc, canon)
    gone = [x for x in sorted({n for e in caps for n in e[:2]}) if x not in rt[0] and canon(x) != canon('GND')]
    raw = maxwell(caps, lambda n: n)
    why = []

    def agrees(g, gone):
        """the reduced network equals g, apart from capacitances below the threshold"""
        for x in gone:
            if any(v >= THR for v in g[x].values()):
                return False
        low = {}
        gc = {}
        for x in g:
            for y, v in g[x].items():
                if x < y and canon(x) != canon(y):
                    k = pair(canon(x), canon(y))
                    if v < THR:
                        low[k] = low.get(k, 0.0) + v
                    gc[k] = gc.get(k, 0.0) + v
        for x in gr:
            for y in gr[x]:
                gc.setdefault(pair(x, y), 0.0)
        for k, e in gc.items():
            x, y = k
            v = gr.get(x, {}).get(y, 0.0)
            if not core.close(e, v, 1e-9, 1e-24) and not core.close(e - low.get(k, 0.0), v, 1e-9, 1e-24):
                why.append(f"{v} F between {x} and {y}, expected {e}")
                return False
        return True

    def search(g, gone):
        if agrees(g, gone):
            return True
        for x in gone:
            if len(g[x]) == 2:      # inner net of a series connection
                h = {k: dict(v) for k, v in g.items()}
                eliminate(h, x)
                if search(h, [y for y in gone if y != x]):
                    return True
        return False
    if not search(raw, gone):
        raise V(f"the reduced netlist has {why[:1]}; nets {gone} are gone; reduced: {rc}, expanded: {caps}")


F = 1e-15


def sym(vals, resid, n):
    """matrix from the n(n-1)/2 couplings and n residuals"""
    m = [[0.0] * n for _ in range(n)]
    for (i, j), v in zip(itertools.combinations(range(n), 2), vals):
        m[i][j] = m[j][i] = -v
    for i in range(n):
        m[i][i] = resid[i] - sum(m[i])
    return tuple(map(tuple, m))


def matrices():
    nets = {1: ('VSUBS',), 2: ('VSUBS', 'A'), 3: ('VSUBS', 'A', 'b'), 4: ('VSUBS', 'A', 'b', 'C')}
    for n in (1, 2, 3):
        off = (0.0, 0.02 * F, 1.25 * F, -0.01 * F) if n == 2 or T else (0.0, 0.02 * F, 1.25 * F)
        res = (0.0, 0.03 * F, 2 * F, -0.25 * F) if n < 3 or T else (0.03 * F, 2 * F, -0.25 * F)
        for o in itertools.product(off, repeat=n * (n - 1)):
            for r in itertools.product(res, repeat=n):
                it = iter(o)
                m = [[0.0 if i == j else -next(it) for j in range(n)] for i in range(n)]
                for i in range(n):
                    m[i][i] = r[i] - sum(m[i])
                m = tuple(map(tuple, m))
                pinsets = ((nets[n], ()) if not o or o[0] == o[-1] else (nets[n],))
                for pins in pinsets:
                    yield ((nets[n], pins, (), False), nets[n], 'fc', m, False)
    n = 4
    for o in itertools.product((0.0, 0.04 * F, 1.5 * F), repeat=6):
        for r in ((0.04 * F,) * 4, (1 * F, 0.02 * F, 0.5 * F, 3 * F), (-0.5 * F,) * 4):
            for pins in ((), nets[4], ('A', 'C')):
                yield ((nets[n], pins, (), False), nets[n], 'fast', sym(o, r, n), False)


chk.explore(matrices(), expand_body, stage='matrices', chunk=256)


def variants():
    m3 = ((10 * F, -1 * F, -2 * F, -3 * F), (-1.5 * F, 11 * F, -4 * F, -5 * F), (-2.5 * F, -4.5 * F, 13 * F, -0.045 * F),
          (-3.5 * F, -5.5 * F, -0.055 * F, 17 * F))
    netsets = [('VSUBS', 'A', 'b'), ('A', 'b'), ('VSUBS', 'GND', 'A'), ('VSUBS', 'A', 1), ('A', 1, 2), ('VSUBS', 'A', 'a'),
               ('VSUBS', 'g1_A', 'A'), ('VSUBS', 'A%GROUP1', 'A'), ('VSUBS', 'g2_g1_x', 'x'), ('VSUBS', 'x,y', 'q[0]'),
               ('VSUBS', 'g12_', 'G1_A'), ('VSUBS', 'A', 'b', 'C')]
    devsets = [lambda t: (), lambda t: (('cap', 'C1', t[:2]),), lambda t: (('mos3', 'M1', (t[0], t[1], t[-1])),),
               lambda t: (('cap', 'C1', t[:2]), ('res', 'R1', t[-2:]), ('mos3', 'M', (t[-1], t[0], t[1])), ('cap', 'Cext_0_1', t[-2:])),
               lambda t: (('diode', 'D1', t[:2]), ('capb', 'C2', (t[0], t[1], t[0])), ('cap', '', t[:2]))]
    for names in netsets:
        for dv in devsets:
            for pins in (names, (), names[-1:]):
                for k in range(1, len(names) + 1):
                    for order in itertools.permutations(names, k):
                        if order[0] != 'VSUBS' and 'VSUBS' in order and not T and k > 2:
                            continue
                        m = tuple(r[:k] for r in m3[:k])
                        for style in ('fc', 'fast'):
                            if style == 'fc' and 'A%GROUP1' in names:      # (ambiguous by nature)
                                continue
                            for bb in (False, True):
                                for other in (False, True):
                                    if other and (len(pins) == 1 or k == 1):
                                        continue
                                    yield ((names, pins, dv(names), other), order, style, m, bb)


chk.explore(variants(), expand_body, stage='variants', chunk=128)


def unknown_body(case):
    names, cond = case
    nl = netlist((names, names, (), False))
    m = [[(3.0 if i == j else -1.0) * F for j in range(len(cond))] for i in range(len(cond))]
    try:
        out = NetlistExpander.expand(extracted_netlist=nl, top_cell_name='TOP', blackbox_devices=False,
                                     cap_matrix=CapacitanceMatrix(conductor_names=list(cond), rows=m))
    except Exception:
        return {'rejected': 1}, case
    raise V(f"a matrix with the conductors {cond} was mapped to the nets {names}: {devices(out)}")


chk.explore([(('VSUBS', 'A', 'b'), ('g1_VSUBS', x)) for x in ('g2_C', 'g2_a', 'A', 'g_A', 'B%GROUP2', 'A%GROUP', 'g2_', 'g2_A ', '')],
            unknown_body, stage='unknown', parallel=False)


# ------------------------------------------------------------------ stage cli
STUB = '#!/bin/sh\ncat "$KV_LOG"\n'


def layouts():
    out = []
    for pdk in (pylvs.SKY, pylvs.IHP):
        lv = pylvs.LEVELS[pdk]
        for i in range(0, len(lv) - 1, 1 if T else 2):
            (a, _, ap), (b, _, bp) = lv[i], lv[i + 1]
            sh = {a: [B(0, 0, 5000, 1000), B(0, 3000, 5000, 4000)], b: [B(0, 0, 1000, 6000)]}
            out.append((pdk, sh, [(a, 'A', 4000, 500), (a, 'b', 4000, 3500), (b, 'C', 500, 5500)], ()))
            out.append((pdk, sh, [(a, 'A', 4000, 500), (b, 'x,y', 500, 5500)], ()))
            out.append((pdk, sh, [(a, 'GND', 4000, 500), (b, 'A', 500, 5500)], ()))
    out.append((pylvs.SKY, {'met3_cap': [B(2000, 0, 9000, 7000)], 'capm': [B(3000, 1000, 8000, 6000)],
                            'via3_cap': [B(4000, 2000, 4400, 2400)], 'met4_ncap': [B(3500, 1500, 12000, 3000)],
                            'met3_ncap': [B(0, 0, 2000, 7000)]},
                [('met3_ncap', 'p', 1000, 200), ('met4_ncap', 'q', 11000, 2000)],
                (('cap', 'mimcap', {'P1': 'met3_cap', 'P2': 'capm'}),)))
    return out


LAY = layouts()


def log_text(solver, nets, m):
    n = len(nets)
    if solver == 'fc':
        ls = ['Running FasterCap', 'Capacitance matrix is:', f"Dimension {n} x {n}"]
        ls += [f"g{i + 1}_{x} " + ' '.join('%.9g' % (v * 1e6) for v in m[i]) for i, x in enumerate(nets)]
        ls += ['', 'Weighted Frobenius norm of the difference between capacitance (auto option): 0.001', '']
    else:
        ls = ['Running FastCap', '', 'CAPACITANCE MATRIX, femtofarads', ' '.join(str(i + 1).rjust(10) for i in range(n)).rjust(30)]
        ls += [f"{x}%GROUP{i + 1}".ljust(12) + f" {i + 1} " + ' '.join(('%.9g' % (v * 1e15 * 1e6)).rjust(10) for v in m[i])
               for i, x in enumerate(nets)]
        ls += ['', 'Total time: 0.1']
    return '\n'.join(ls) + '\n'


def cli_body(case):
    i, solver, k, bb = case
    pdk, sh, lab, dev = LAY[i]
    l2n = pylvs.make(pdk, sh, lab, devices=dev, path='t.lvsdb.gz')
    c = l2n.netlist().circuit_by_name('TOP')
    nets = sorted(n.expanded_name() for n in c.each_net())
    odev = sorted(d.device_class().name for d in c.each_device())
    nets = nets[k:] + nets[:k]
    n = len(nets) + 1
    m = [[-(0.02 + 0.75 * abs(a - b) + 0.125 * (a % 3) + 0.03125 * b) * F for b in range(n)] for a in range(n)]
    for a in range(n):
        m[a][a] = 0.0
        m[a][a] = (0.5 + a) * F - sum(m[a])
    names = ['VSUBS'] + nets
    with open('log', 'w') as f:
        f.write(log_text(solver, names, m))
    with open('solver', 'w') as f:
        f.write(STUB)
    os.chmod('solver', 0o755)
    exe = os.path.abspath('solver')
    eng, var, pre = (('--fastercap', 'KPEX_FASTERCAP_EXE', 'FasterCap'), ('--fastcap', 'KPEX_FASTCAP_EXE', 'FastCap2'))[solver != 'fc']
    r = cli.kpex(['--pdk', pdk, '--lvsdb', 't.lvsdb.gz', '--out_dir', 'o', eng, '--blackbox', str(bb)],
                 env={var: exe, 'KV_LOG': os.path.abspath('log')})
    if r.status != 0:
        raise V(repr(r))
    base = f"o/t__TOP/TOP_{pre}_"
    for kind in ('Raw', 'Avg'):
        with open(base + f"Result_Matrix_{kind}.csv") as f:
            ls = f.read().split('\n')
        if [x.split('%')[0].split('_', 1)[-1] for x in ls[0].split(';')] != names:
            raise V(f"{kind} matrix has the conductors {ls[0]!r}, expected {names}")
        for a in range(n):
            row = [float(x) for x in ls[1 + a].split(';')]
            ex = [m[a][b] if kind == 'Raw' or a == b else (m[a][b] + m[b][a]) / 2 for b in range(n)]
            if len(row) != n or not all(core.close(x, y, 1e-8, 1e-30) for x, y in zip(row, ex)):
                raise V(f"{kind} matrix row {a}: {row}, expected {ex}")
    avg = [[m[a][b] if a == b else (m[a][b] + m[b][a]) / 2 for b in range(n)] for a in range(n)]
    exp = expected(names, avg)

    def esc(x):
        return x.replace(',', '|')
    sub = cli.read_spice(base + 'Expanded_Netlist.cir')
    pins, els = sub['TOP']
    ext = [(e[2][0], e[2][1], e[3]) for e in els if e[0] == 'c' and e[4] == 'PEX_CAP']
    compare('SPICE netlist', total([(esc(a), esc(b), v) for a, b, v in exp]), ext, rel=1e-6)
    oth = sorted(e[4] for e in els if e[4] not in ('PEX_CAP', 'PEX_RES'))
    if oth != (odev if bb else []):
        raise V(f"devices of the SPICE netlist: {oth}, expected {odev if bb else []}")
    if solver == 'fc':
        check_csv(base + 'Expanded_Netlist.csv', exp)
    sub = cli.read_spice(base + 'Reduced_Netlist.cir')
    if sub['TOP'][0] != pins:
        raise V(f"pins of the reduced netlist: {sub['TOP'][0]}, expanded {pins}")
    ground = {'VSUBS', 'GND', 'FC_GND'}

    def tot(entries):
        d = {}
        for a, b, v in entries:
            kk = pair('GND' if a in ground else a, 'GND' if b in ground else b)
            d[kk] = d.get(kk, 0.0) + v
        return {kk: v for kk, v in d.items() if len(kk) == 2}
    e1, e2 = tot(ext), tot([(e[2][0], e[2][1], e[3]) for e in sub['TOP'][1] if e[0] == 'c' and e[4] == 'PEX_CAP'])
    for kk in set(e1) | set(e2):
        if e1.get(kk, 0) > 2 * THR and not core.close(e1.get(kk, 0), e2.get(kk, 0), 1e-6, 0) and n > 3:
            raise V(f"reduced netlist: {sorted(kk)} is {e2.get(kk)}, expected {e1.get(kk)}")
    return {'caps': len(ext)}, hash(repr(sorted(ext)))


chk.explore([(i, s, k, bb) for i in range(len(LAY)) for s in ('fc', 'fast') for k in (0, 1) for bb in (False, True)
             if bb is False or LAY[i][3] or i < 3], cli_body, stage='cli', chunk=1)
chk.finish()
