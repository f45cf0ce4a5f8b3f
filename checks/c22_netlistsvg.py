"""C22: the exported schematic JSON is the circuit, and the netlist tool draws the circuit it was asked for."""
import itertools
import json
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, rcx

chk = core.Check('C22', rule='every circuit of up to three elements (R, C, instances of two subcircuits, every connection) over four nets, all ports, values, '
                 'names; every file with up to three circuits x requested cell x tool behaviour; outcomes are distinct (element kinds, ports)')
T = chk.thorough
V = core.Violation
kdb = rcx.mods().kdb
from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
from klayout_pex.netlist.netlist_cli import NetlistCLI
from klayout_pex.netlistsvg.netlistsvg_runner import run_netlistsvg
from urllib.parse import unquote
core.quiet()
ROOT = chk.wdir + '/c22'
os.makedirs(ROOT)

GROUNDS = ('VSUBS', 'GND')
SUBS = {'S2': ('P', 'Q'), 'S3': ('P', 'Q', 'VSUBS'), 'S1': ('Z',)}
VAL = {'R': [('1', 1.0), ('0.001', 0.001), ('12.5', 12.5), ('1k', 1000.0), ('2.5meg', 2.5e6), ('98765.4321', 98765.4321), ('0', 0.0)],
       'C': [('1f', 1.0), ('0.001f', 0.001), ('123.456f', 123.456), ('1e-12', 1000.0), ('2.5p', 2500.0), ('7.25e-16', 0.725), ('1.0004f', 1.0004), ('3n', 3e6)]}


def spice(circuits, extra=''):
    """circuits: list of (name, ports, elements); element = (kind, name, nets, value text)"""
    s = '* generated\n'
    for n in sorted({e[0] for _, _, es in circuits for e in es if e[0] in SUBS}):
        s += f".SUBCKT {n} {' '.join(SUBS[n])}\nR1 {SUBS[n][0]} {SUBS[n][-1]} 5\n.ENDS\n"
    for name, ports, es in circuits:
        s += f".SUBCKT {name} {' '.join(ports)}\n"
        for kind, en, nets, val in es:
            s += f"X{en} {' '.join(nets)} {val or kind}\n" if kind not in VAL else f"{kind}{en} {' '.join(nets)} {val}\n"
        s += '.ENDS\n'
    return s + extra + '.END\n'


def number(s):
    f = {'f': 1, 'p': 1e3, 'n': 1e6, 'a': 1e-3, '': 1e15, 'F': 1e15}
    k = len(s.rstrip('fpnaF'))
    return float(s[:k]) * f[s[k:]]


def check_json(d, circuit, what):
    """d: parsed JSON; circuit: (name, ports, elements)"""
    name, ports, es = circuit
    U = str.upper
    if [U(k) for k in d.get('modules', {})] != [U(name)]:
        raise V(f"{what}: the file has the circuits {list(d.get('modules', {}))}, requested is {name}")
    m = list(d['modules'].values())[0]
    bit = {}           # net -> bit

    def tie(net, bits, where):
        net = U(net)
        if len(bits) != 1:
            raise V(f"{what}: {where} has {len(bits)} connections")
        if bit.setdefault(net, bits[0]) != bits[0]:
            raise V(f"{what}: {where} is drawn on wire {bits[0]}, net {net} is wire {bit[net]}")
    pd = {U(k): v for k, v in m['ports'].items()}
    if len(pd) != len(m['ports']) or set(pd) != {U(p) for p in ports}:
        raise V(f"{what}: ports {sorted(m['ports'])}, the circuit has {sorted(ports)}")
    for p in ports:
        tie(p, pd[U(p)]['bits'], f"port {p}")
    cells = dict(m['cells'])
    got = [(c['type'], c) for k, c in cells.items() if c['type'] != 'gnd']
    gnds = [c for c in cells.values() if c['type'] == 'gnd']
    if len(got) != len(es):
        raise V(f"{what}: {len(got)} elements are drawn ({sorted(k for k in cells)}), the circuit has {len(es)}: {[(e[0] + e[1]) for e in es]}")

    def sig_of(c):
        t = c['type']
        con = c['connections']
        if t in ('c_v', 'r_v'):
            if set(con) != {'A', 'B'}:
                raise V(f"{what}: terminals {sorted(con)} of an element {t}")
            # (millifarads … the drawing shows three digits after the point, in fF or Ohm)
            v = number(c['attributes']['value']) if t == 'c_v' else float(c['attributes']['value'])
            return ('C' if t == 'c_v' else 'R', tuple(sorted((con['A'][0], con['B'][0]))), v)
        if not t.startswith('$'):
            raise V(f"{what}: unknown element type {t}")
        if not all(k.split('=')[0].isdecimal() and '=' in k for k in con):
            raise V(f"{what}: pins {sorted(con)} of an instance of {t[1:]}")
        ids = sorted(con, key=lambda k: int(k.split('=')[0]))
        if [int(k.split('=')[0]) for k in ids] != list(range(len(ids))) or set(c.get('port_directions', con)) != set(con):
            raise V(f"{what}: pins {ids} of an instance of {t[1:]}")
        return (U(t[1:]), tuple(con[k][0] for k in ids), None, tuple(U(k.split('=', 1)[1]) for k in ids))
    have = [sig_of(c) for _, c in got]
    # wires of nets which are no ports: solved by matching instances/elements (backtracking, at most 4 elements)
    want = []
    for kind, en, nets, val in es:
        if kind == 'C':
            want.append((kind, nets, number_of('C', val)))
        elif kind == 'R':
            want.append((kind, nets, number_of('R', val)))
        else:
            want.append((U(val or kind) if kind not in VAL else kind, nets, None))

    def fits(w, h, b):
        if w[0] != h[0] or (w[2] is not None and abs(w[2] - h[2]) > 0.00051):
            return
        if len(w[1]) != len(h[1]):
            return
        orders = [w[1]] if w[0] not in VAL else {tuple(w[1]), tuple(w[1])[::-1]}
        for o in orders:
            if w[2] is None and tuple(U(n) for n in o) != h[3]:
                continue
            nb = dict(b)
            if all(nb.setdefault(U(n), x) == x for n, x in zip(o, h[1])) and len(set(nb.values())) == len(nb):
                yield nb

    def grounded(b):
        return sorted((U(c['attributes']['value']), c['connections']['A'][0]) for c in gnds) == sorted((g, b[g]) for g in GROUNDS if g in b)

    def solve(i, left, b):
        if i == len(want):
            return b if grounded(b) else None
        for k in left:
            for nb in fits(want[i], have[k], b):
                r = solve(i + 1, [x for x in left if x != k], nb)
                if r is not None:
                    return r
        return None
    if len(set(bit.values())) != len(bit):
        raise V(f"{what}: ports of different nets are on one wire: {bit}")
    b = solve(0, list(range(len(have))), bit)
    if b is None:
        raise V(f"{what}: the drawing {[(h[0], h[1], h[2]) for h in have]} with ports {bit} and ground symbols at {[(c['attributes']['value'], c['connections']['A'][0]) for c in gnds]} is not the circuit {[(w[0], w[1], w[2]) for w in want]}")


SCALE = {'f': 1, 'p': 1e3, 'n': 1e6}


def number_of(kind, s):
    for t, v in VAL[kind]:
        if t == s:
            return v
    raise core.HarnessError(s)


def export(text, top, d):
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/n.spice", 'w') as f:
        f.write(text)
    n = kdb.Netlist()
    n.read(f"{d}/n.spice", kdb.NetlistSpiceReader())
    c = n.circuit_by_name(top)
    if c is None:
        raise core.HarnessError(f"{top} not in\n{text}")
    w = NetlistJSONWriter()
    out = f"{d}/n.json"
    w.write_json(netlist=n, top_circuit=c, output_path=out)
    with open(out, encoding='utf-8') as f:
        pairs = json.load(f, object_pairs_hook=unique)
    return pairs


def unique(ps):
    if len({k for k, _ in ps}) != len(ps):
        raise V(f"the JSON file has duplicate keys {sorted(k for k, _ in ps)}")
    return dict(ps)


def json_body(case):
    circuit = case
    d = f"{ROOT}/j{os.getpid()}"
    text = spice([circuit])
    try:
        j = export(text, circuit[0], d)
    except (core.HarnessError, V):
        raise
    check_json(j, circuit, f"circuit {text!r}")
    return {'circuits': 1, 'elements': len(circuit[2])}, (tuple(e[0] for e in circuit[2]), len(circuit[1]))


NETS = ('A', 'n1', 'VSUBS', 'GND')


def elements(nets):
    for a, b in itertools.product(nets, repeat=2):
        yield ('R', (a, b))
        yield ('C', (a, b))
        yield ('S2', (a, b))
    for t in itertools.product(nets, repeat=3):
        yield ('S3', t)
    for a in nets:
        yield ('S1', (a,))


def named(es, first=1):
    res = []
    for i, (k, nets) in enumerate(es):
        v = VAL[k][i % len(VAL[k])][0] if k in VAL else None
        res.append((k, str(first + i), nets, v))
    return tuple(res)


PORTS = [(), ('A',), ('A', 'VSUBS'), ('n1', 'A'), ('A', 'n1', 'VSUBS', 'GND'), ('OPEN', 'A')]


def circuits():
    E = list(elements(NETS))
    for p in PORTS:
        for e in E:
            yield ('TOP', p, named([e]))
        yield ('TOP', p, ()) if p else ('TOP', ('A',), ())
    small = list(elements(NETS[:3]))
    for p in PORTS[:4] if not T else PORTS:
        for es in itertools.combinations_with_replacement(small if not T else E, 2):
            yield ('TOP', p, named(es))
    tiny = [e for e in elements(('A', 'VSUBS', 'n1')) if e[0] != 'S3' and (e[0] == 'S1' or e[1][0] < e[1][1])] + [('S3', ('A', 'n1', 'VSUBS')), ('S3', ('n1', 'n1', 'VSUBS'))]
    for es in itertools.combinations_with_replacement(tiny, 3):
        for p in (('A', 'VSUBS'), ('n1',)) if not T else PORTS:
            yield ('TOP', p, named(es))
    if T:
        for es in itertools.combinations_with_replacement(tiny[:10], 4):
            yield ('TOP', ('A', 'VSUBS'), named(es))
    # values, one at a time and in pairs
    for k in VAL:
        for (a, _), (b, _) in itertools.product(VAL[k], repeat=2):
            yield ('TOP', ('A', 'VSUBS'), ((k, '1', ('A', 'n1'), a), (k, '2', ('n1', 'VSUBS'), b)))
    # names
    N = ('1', '10', '11', '01', 'A', '_', 'S2', 'S20', 'ND', 'gnd', '0')
    for a, b in itertools.permutations(N, 2):
        for k1, k2 in itertools.product(('R', 'C', 'S2', 'S3'), repeat=2):
            def el(k, n, x):
                return (k, n, ('A', x) if k != 'S3' else ('A', x, 'VSUBS'), VAL[k][1][0] if k in VAL else None)
            yield ('TOP', ('A', 'VSUBS'), (el(k1, a, 'n1'), el(k2, b, 'n2')))
        yield ('TOP', ('A',), tuple((k, n, ('A', x), VAL[k][2][0] if k in VAL else None) for k, n, x in (('R', a, 'n1'), ('C', a, 'n2'), ('S2', a, 'n3'), ('R', b, 'n4'))))
    for nets in itertools.permutations(('A', 'a1', 'n.1', 'net[0]', '1', '0', 'VDD', '$2', 'x/y', 'gnd'), 3):
        yield ('TOP', nets[:2], named([('R', nets[:2]), ('C', nets[1:]), ('S3', nets)]))
    # nets which are called like elements, or have long names
    for x, y in itertools.permutations(('R1', 'C1', 'X1', 'GND1', 'r1', 'A', 'R2', 'a_very_long_net_name_1', 'a_very_long_net_name_2', 'GND'), 2):
        for k1, k2 in itertools.product(('R', 'C', 'S2', 'S3'), repeat=2):
            for n in ('1', '2'):
                def el2(k, n):
                    return (k, n, (x, y) if k != 'S3' else (x, y, 'VSUBS'), VAL[k][1][0] if k in VAL else None)
                if (k1, n) != (k2, '1') and not (k1[0] == k2[0] == 'S' and n == '1'):
                    yield ('TOP', ('A',) if n == '1' else (x,), (el2(k1, n), el2(k2, '1')))
    for name in ('TOP', 'top', 'gnd', 'R1', 'C', 'cell_1', 'a$b', 'INV1'):
        for es in itertools.combinations(tiny, 2):
            yield (name, ('A',), named(es))


chk.explore(circuits(), json_body, stage='circuits', chunk=64)


# a writer that is used again, two circuits of one netlist
def again_body(case):
    cs = case
    d = f"{ROOT}/g{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/n.spice", 'w') as f:
        f.write(spice(cs))
    n = kdb.Netlist()
    n.read(f"{d}/n.spice", kdb.NetlistSpiceReader())
    for order in itertools.permutations(cs):
        for c in order:
            w = NetlistJSONWriter()
            w.write_json(netlist=n, top_circuit=n.circuit_by_name(c[0]), output_path=f"{d}/{c[0]}.json")
            with open(f"{d}/{c[0]}.json", encoding='utf-8') as f:
                check_json(json.load(f, object_pairs_hook=unique), c, f"netlist {spice(cs)!r}, circuit {c[0]}")
    return {'circuits': 2 * len(cs)}, len(cs)


SMALL = [(), named([('R', ('A', 'n1'))]), named([('C', ('A', 'VSUBS')), ('C', ('A', 'n2'))]), named([('S2', ('A', 'n1')), ('S2', ('n1', 'A'))]), named([('S3', ('A', 'n1', 'GND'))])]


def agains():
    for a, b in itertools.product(SMALL, repeat=2):
        yield (('C1', ('A',), a), ('C2', ('n1', 'A'), b))
    for a, b, c in itertools.product(SMALL, repeat=3):
        yield (('C1', ('A',), a), ('C2', ('n1', 'A'), b), ('C3', ('A', 'VSUBS'), c))


chk.explore(agains(), again_body, stage='several circuits', chunk=8)


# ------------------------------------------------------------------------------------------------ the tool
STAND = '''#!/bin/bash
printf '%s\\n' "$@" > "$KV_REC/argv"
while [ $# -gt 1 ]; do case "$1" in -o) OUT="$2"; shift;; esac; shift; done
cp "$1" "$KV_REC/json"
[ "$KV_FAIL" = 1 ] && exit 3
echo "<svg>$KV_STAMP</svg>" > "$OUT"
exit 0
'''
with open(f"{ROOT}/netlistsvg", 'w') as f_:
    f_.write(STAND)
os.chmod(f"{ROOT}/netlistsvg", 0o755)
with open(f"{ROOT}/browser", 'w') as f_:
    f_.write('#!/bin/bash\nprintf "%s\\n" "$@" >> "$KV_REC/shown"\n')
os.chmod(f"{ROOT}/browser", 0o755)


def tool(cwd, rec, argv, fail, stamp, onpath=False):
    shutil.rmtree(rec, ignore_errors=True)
    os.makedirs(rec)
    e = {'KV_REC': rec, 'KV_FAIL': '1' if fail else '0', 'KV_STAMP': stamp, 'COLUMNS': '200', 'PATH': f"{ROOT}:{os.environ['PATH']}" if onpath else os.environ['PATH'],
         'BROWSER': f"{ROOT}/browser %s"}

    def fn():
        sys.argv = ['netlist', *argv]
        NetlistCLI().main(['netlist', *argv])
    r = cli.child(fn, cwd, e, f"{rec}/console")
    j = None
    if os.path.isfile(f"{rec}/json"):
        with open(f"{rec}/json", encoding='utf-8') as f:
            j = json.load(f, object_pairs_hook=unique)
    av = open(f"{rec}/argv").read().split('\n')[:-1] if os.path.isfile(f"{rec}/argv") else None
    return r, j, av


def tool_body(case):
    runs = case
    d = f"{ROOT}/t{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for i, (cs, calls, cell, out, exe, fn, src, show) in enumerate(runs):
        what = f"run {i + 1} of {[(c, a[2:]) for (c, *a) in runs]}"
        text = spice(cs, extra=calls) if cs is not None else None
        p = f"{d}/{fn}"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if text is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p, 'w') as f:
                f.write(text)
        given, exe = exe, {'path': 'ok', 'default': 'ok', 'off path': 'none', 'off default': 'none'}.get(exe, exe)
        argv = ['svg'] + ([] if 'default' in given else ['--exe', {'path': 'netlistsvg', 'off path': 'netlistsvg', 'none': f"{ROOT}/missing"}.get(given, f"{ROOT}/netlistsvg")])
        if cell is not None:
            argv += [src, cell]
        o = None
        if out is not None:
            argv += ['-o', out]
            o = os.path.join(d, out)
        if show:
            argv.append(show)
        argv.append(fn)
        r, j, av = tool(d, f"{d}/rec", argv, exe == 'fail', str(i), onpath=given in ('path', 'default'))
        shown = open(f"{d}/rec/shown").read().split() if os.path.isfile(f"{d}/rec/shown") else []
        names = [c[0].upper() for c in cs or ()]
        called = {e[0].upper() for c in cs or () for e in c[2]} | {(e[3] or '').upper() for c in cs or () for e in c[2]}
        tops = [n for n in names if n not in called]
        if cell is not None:
            ok = cell.upper() in names
            want = cell.upper()
        else:
            ok = len(tops) == 1
            want = tops[0] if ok else None
        if r.status == cli.CRASH and ok and exe == 'ok':
            raise V(f"{what}: {r}")
        if shown and (not ok or exe != 'ok' or not show):
            raise V(f"{what}: shows {shown} (preview {show}, netlistsvg {exe})")
        if not ok or exe == 'none':
            if r.status == 0:
                raise V(f"{what}: reported success for the circuits {names}, top circuits {tops}, requested {cell}, netlistsvg {exe}")
            if j is not None:
                raise V(f"{what}: drew {list(j['modules'])} for the circuits {names}, top circuits {tops}, requested {cell}")
            continue
        if j is None:
            raise V(f"{what}: netlistsvg was not started: {r}")
        check_json(j, [c for c in cs if c[0].upper() == want][0], what)
        if (r.status == 0) != (exe == 'ok'):
            raise V(f"{what}: exit status {r.status}, netlistsvg {exe}")
        if exe == 'ok':
            if o is None:
                ix = av.index('-o') if '-o' in av else av.index('--output')
                o = os.path.join(d, av[ix + 1])
            if not os.path.isfile(o) or open(o).read() != f"<svg>{i}</svg>\n":
                raise V(f"{what}: no drawing at {o}: {r}")
            if show and [unquote(u) for u in shown] != ['file://' + os.path.abspath(o)] and ' ' not in o:
                raise V(f"{what}: shows {shown} instead of {o}")
            if '--layout' in av or '--skin' not in av or not os.path.isfile(av[av.index('--skin') + 1]):
                raise V(f"{what}: netlistsvg command line {av}")
    shutil.rmtree(d)
    return {'tool runs': len(runs)}, tuple((len(cs or ()), cell is not None, exe) for cs, _, cell, _, exe, *_ in runs)


def one(name, k):
    return (name, ('A',), SMALL[k])


FILES = [None, (), (one('TOP', 1),), (one('TOP', 3), one('OTHER', 2)), (one('B', 1), one('A', 2), one('C', 4)),
         (one('LEAF', 1), ('TOP', ('A', 'n1'), (('leaf', '1', ('A',), 'LEAF'), ('leaf', '2', ('n1',), 'LEAF'), ('R', '1', ('A', 'n1'), '1k'))))]
CELLS = (None, 'TOP', 'top', 'OTHER', 'A', 'LEAF', 'none')


def tools():
    for cs in FILES:
        for cell in CELLS:
            for exe in ('ok', 'fail', 'none'):
                for out in (None, 'x.svg', 'my dir/y.svg'):
                    for fn in ('n.spice', 'in put/n$1.spice'):
                        if cell is None or out is None or T:
                            if out and '/' in out and fn == 'n.spice':
                                continue
                            o = out if out is None or '/' not in out else f"in put/{out.split('/')[1]}"
                            yield ((cs, '', cell, o, exe, fn, '--cell' if len(fn) == 7 else '-c', None),)
            for exe in ('path', 'default', 'off path', 'off default'):
                for out in (None, 'x.svg'):
                    yield ((cs, '', cell, out, exe, 'n.spice', '--cell', None),)
            for exe in ('ok', 'fail', 'none'):
                for show in ('-p', '--preview'):
                    for o in (None, 'x.svg'):
                        yield ((cs, '', cell, o, exe, 'n.spice', '--cell', show),)
    one_run = [(cs, '', cell, None, 'ok', 'n.spice', '-c', None) for cs in FILES for cell in (None, 'TOP', 'OTHER')]
    for a, b in itertools.product(one_run, repeat=2):
        yield (a, b)


chk.explore(tools(), tool_body, stage='tool', chunk=2)


def runner_body(case):
    j, o, skin, layout, fail = case
    d = f"{ROOT}/r{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(f"{d}/{j}", 'w') as f:
        f.write('{}')
    e = {'KV_REC': d, 'KV_FAIL': '1' if fail else '0', 'KV_STAMP': '7', 'COLUMNS': '200', 'PATH': os.environ['PATH']}
    r = cli.child(lambda: run_netlistsvg(exe_path=f"{ROOT}/netlistsvg", skin_path=skin, yosys_json_netlist_path=j, output_svg_path=o,
                                         layout_elk_path=layout, log_path='log.txt'), d, e, f"{d}/console")
    if (r.status == 0) == fail:
        raise V(f"{case}: {r}")
    av = open(f"{d}/argv").read().split('\n')[:-1]
    opts = {av[k]: av[k + 1] for k in range(0, len(av) - 1, 2)}
    want = {'-o': o, '--skin': skin, **({'--layout': layout} if layout is not None else {})}
    if opts != want or av[-1] != j or len(av) != 2 * len(want) + 1:
        raise V(f"{case}: netlistsvg is called with {av}")
    if not fail and open(f"{d}/{o}").read() != '<svg>7</svg>\n':
        raise V(f"{case}: no drawing")
    shutil.rmtree(d)
    return {'runs': 1}, (layout is None, fail)


chk.explore(itertools.product(('n.json', 'a b.json', '$x.json'), ('o.svg', 'o p.svg'), ('s.svg', 'my skin.svg'), (None, 'l.json', 'a layout.json'), (False, True)),
            runner_body, stage='runner', chunk=4)
chk.finish()
