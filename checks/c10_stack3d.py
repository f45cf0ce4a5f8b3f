"""C10: the 3D input reflects the process stack of the technology file (reference stack computed from the JSON file)."""
import itertools
import math
import os
import shutil
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, cli, fc, pylvs, rcx

chk = core.Check('C10', rule='every conductor, contact and pair of metals of both technologies x placements x dielectric selections x '
                 'database units x void permittivities; outcomes are distinct slab structures')
T = chk.thorough
M = rcx.mods()
kdb = M.kdb
from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
from klayout_pex.util.multiple_choice import MultipleChoicePattern
cli.preload()
V = core.Violation
SKY, IHP = pylvs.SKY, pylvs.IHP
PDKS = (SKY, IHP)


# ------------------------------------------------------------------ the technology file, read independently
class Stack:
    def __init__(self, pdk):
        t = pylvs.tech_json(pdk)
        self.layers = t['process_stack']['layers']
        self.by = {}
        for l in self.layers:
            self.by.setdefault(l['name'], l)
        self.gds = {}
        for l in t['layers']:
            self.gds[l['name']] = (l['drw_gds_pair']['layer'], l['drw_gds_pair'].get('datatype', 0))
        comp = {}
        for l in t['lvs_computed_layers']:
            p = l['layer_info']['drw_gds_pair']
            comp[l['layer_info']['name']] = (p['layer'], p.get('datatype', 0))
        self.gds.update(comp)
        known = set(pylvs.STACK[pdk]) | {x for p in pylvs.EXTRA[pdk] for x in p}
        self.lvs = {}      # process (or contact) name -> layer of the LVS database
        for n in [l['name'] for l in self.layers if self.kind(l) in ('METAL', 'DIFFUSION')] + [c['name'] for c, _, _ in self.contacts()]:
            g = self.gds.get(n)
            c = [x for x in comp if comp[x] == g and (x in known or x == n)]
            if c:
                self.lvs[n] = n if n in c else c[0]
        self.metals = [l for l in self.layers if self.kind(l) == 'METAL']
        self.diels = []
        for l in self.layers:
            if self.kind(l).endswith('DIELECTRIC') and l['name'] not in self.diels:
                self.diels.append(l['name'])
        self.fox = [l for l in self.layers if self.kind(l) == 'FIELD_OXIDE'][0]

    @staticmethod
    def kind(l):
        return l['layer_type'][len('LAYER_TYPE_'):]

    @staticmethod
    def par(l):
        return [v for k, v in l.items() if k.endswith('_layer')][0] if any(k.endswith('_layer') for k in l) else {}

    def contacts(self):
        """(contact, layer below, start height)"""
        for l in self.layers:
            p = self.par(l)
            c = p.get('contact_above')
            if c and c.get('name'):
                if self.kind(l) == 'METAL':
                    yield c, l, Fraction(str(p['z'])) + Fraction(str(p['thickness']))
                elif self.kind(l) == 'DIFFUSION':
                    yield c, l, Fraction(0)

    def k(self, name):
        return float(self.par(self.by[name])['dielectric_k'])

    def chain(self, metal):
        """sidewall and conformal dielectrics on a metal, from inside to outside"""
        ref, res = metal, []
        while True:
            n = [l for l in self.layers if self.kind(l) in ('SIDEWALL_DIELECTRIC', 'CONFORMAL_DIELECTRIC') and self.par(l)['reference'] == ref]
            if not n:
                return res
            assert len(n) == 1
            res.append(n[0])
            ref = n[0]['name']

    def simple_above(self, metal):
        """(dielectric or None, height)"""
        i = [n for n, l in enumerate(self.layers) if l['name'] == metal][0]
        z = fr(self.par(self.layers[i])['z'])
        d = None
        for l in self.layers[i + 1:]:
            if self.kind(l) == 'SIMPLE_DIELECTRIC' and d is None:
                d = l['name']
            if self.kind(l) == 'METAL':
                return d, fr(self.par(l)['z']) - z
        return d, Fraction(5)


def fr(x):
    # (floats of the file such as 4.886099999999999 are sums of decimal numbers)
    return Fraction(str(round(float(x or 0), 9)))


STACK = {p: Stack(p) for p in PDKS}


def included(filt, name):
    base, names = filt
    return (name not in names) if base == 'all' else (name in names)


def pattern(filt):
    base, names = filt
    return ','.join([base] + [('-' if base == 'all' else '+') + n for n in names])


def reference(pdk, dbu, drawn, bbox, filt):
    """drawn: {process or contact name: {net: Region}} -> items for fc.slabs (heights in database units), order of priority"""
    s = STACK[pdk]
    D = Fraction(str(dbu))

    def z(v):
        return math.floor(v / D + Fraction(1, 10 ** 6))

    def w(v):
        return math.floor(fr(v) / D)
    items = []

    def add(role, reg, a, b):
        if z(a) < z(b):
            items.append((role, reg, z(a), z(b)))
    block = kdb.Region(bbox.enlarged(math.floor(8 / D)))
    for m in s.metals:
        p = s.par(m)
        for net, reg in drawn.get(m['name'], {}).items():
            add(('+', net), reg, fr(p['z']), fr(p['z']) + fr(p['thickness']))
    for c, l, z0 in s.contacts():
        for net, reg in drawn.get(c['name'], {}).items():
            add(('+', net), reg, z0, z0 + fr(c['thickness']))
    sub = block.dup()
    for l in s.layers:
        if s.kind(l) == 'DIFFUSION':
            for net, reg in drawn.get(l['name'], {}).items():
                add(('+', net), reg, Fraction(0), Fraction(1, 10))
                sub -= reg.sized(math.floor(1 / D))
    ps = s.par([l for l in s.layers if s.kind(l) == 'SUBSTRATE'][0])
    add(('+', 'VSUBS'), sub, -fr(ps.get('height')) - fr(ps['thickness']), -fr(ps.get('height')))
    add(('-', s.fox['name']), block, Fraction(0), fr(s.par(s.metals[0])['z']))
    for m in s.metals:
        p = s.par(m)
        z0, th = fr(p['z']), fr(p['thickness'])
        side, h, flat, has_flat, covered = None, Fraction(0), Fraction(0), False, False
        if m['name'] in drawn:
            side = kdb.Region()
            for r in drawn[m['name']].values():
                side += r
            side.merge()
            for l in s.chain(m['name']):
                if not included(filt, l['name']):
                    continue
                q = s.par(l)
                if s.kind(l) == 'SIDEWALL_DIELECTRIC':
                    side = side.sized(w(q['width_outside_sidewall']))
                    h += fr(q.get('height_above_metal')) or th
                else:
                    side = side.sized(w(q.get('thickness_sidewall')))
                    h += fr(q['thickness_over_metal']) + (0 if covered else th)
                    covered = True
                add(('-', l['name']), side, z0, z0 + h)
                t = fr(q.get('thickness_where_no_metal'))
                if s.kind(l) == 'CONFORMAL_DIELECTRIC' and t:
                    has_flat = True
                    add(('-', l['name']), block - side, z0 + flat, z0 + flat + t)
                    flat += t
        d, H = s.simple_above(m['name'])
        if d is None or not included(filt, d):
            continue
        if side is None:
            add(('-', d), block, z0, z0 + H)
        else:
            add(('-', d), side, z0 + h, z0 + H)
            add(('-', d), block - side, z0 + flat, z0 + H)
    nets = sorted({i[0] for i in items if i[0][0] == '+'})
    order = nets + [('-', s.fox['name'])] + [('-', n) for n in s.diels if included(filt, n)]
    return items, order


# ------------------------------------------------------------------ the layout
SHAPE = {'box': [(0, 0, 1000, 600)], 'L': [(0, 0, 1000, 300), (0, 0, 300, 900)], 'two': [(0, 0, 400, 600), (440, 0, 900, 600)],
         'dot': [(400, 100, 600, 300)], 'big': [(-500, -500, 3000, 2500)], 'bar': [(0, 200, 2600, 500)]}


def layout(pdk, dbu, items):
    """items [(process or contact name, net label or '', shape, dx, dy)] -> l2n, {name: {net: Region}}, bbox"""
    s = STACK[pdk]
    shapes, labels, drawn = {}, [], {}
    f = round(dbu * 1000)
    text = {m for m, _, _ in pylvs.LEVELS[pdk]}
    for name, net, sh, dx, dy in items:
        lay = s.lvs[name]
        bx = [kdb.Box(*[v // f for v in (a + dx, b + dy, c + dx, d + dy)]) for a, b, c, d in SHAPE[sh]]
        r = kdb.Region()
        for b in bx:
            r.insert(b)
        for p in r.merged().each():
            shapes.setdefault(lay, []).append(p)
        if net and lay in text:
            for b in bx:
                labels.append((lay, net, b.left + 1, b.bottom + 1))
    l2n = pylvs.make(pdk, shapes, labels, dbu=dbu, join=True)
    box = kdb.Box()
    c = l2n.netlist().circuit_by_name('TOP')
    back = {}
    for name, net, sh, dx, dy in items:
        back.setdefault(s.lvs[name], name)
        if back[s.lvs[name]] != name:
            raise core.HarnessError(f"two names of the layer {s.lvs[name]}")
    for lay, name in back.items():
        for n in c.each_net():
            r = l2n.shapes_of_net(n, l2n.layer_by_name(lay), True).merged()
            if not r.is_empty():
                drawn.setdefault(name, {})[n.expanded_name()] = r
                box += r.bbox()
    return l2n, drawn, box


def examine(pdk, dbu, lst, drawn, box, filt, kvoid, what):
    s = STACK[pdk]
    items, order = reference(pdk, dbu, drawn, box, filt)
    sl = fc.slabs(items, order)
    if fc.touching(sl):
        return None
    kv, surf = fc.read_lst(lst, dbu)
    if kv != kvoid:
        raise V(f"{what}: void permittivity {kv} instead of {kvoid}")

    def diel(k):
        return None if k == kvoid else ('-', k)
    ks = {float('%.12g' % s.k(n)) for n in [s.fox['name']] + [n for n in s.diels if included(filt, n)]} | {kvoid}
    num2net = {}
    for x in surf:
        for n, name in x['names']:
            num2net[n] = name
        for k in (x['kout'], x['kin']):
            if k is not None and k not in ks:
                raise V(f"{what}: permittivity {k} in {x['file']}; selected are {sorted(ks)}")
    first = [x for x in surf if x['kind'] == 'C'][0]
    if num2net.get(first['tris'][0][0]) != 'VSUBS':
        raise V(f"{what}: the first conductor of the list is not VSUBS")
    sl2 = fc.identify(sl, lambda r: r if r[0] == '+' else diel(float('%.12g' % s.k(r[1]))))
    fc.compare_stack(surf, sl2, lambda x: ('+', num2net[x['tris'][0][0]]), diel, what)
    return tuple((z0, z1, tuple(sorted(map(str, d)))) for z0, z1, d in sl2)


def body(case):
    pdk, dbu, its, filt, kvoid, amax, b = case
    l2n, drawn, box = layout(pdk, dbu, its)
    info = M.TechInfo.from_json(pylvs.tech_path(pdk), MultipleChoicePattern(pattern=pattern(filt)))
    ctx = M.Ctx.prepare_extraction(lvsdb=l2n, top_cell='TOP', tech=info, blackbox_devices=False)
    gen = FasterCapInputBuilder(pex_context=ctx, tech_info=info, k_void=kvoid, delaunay_amax=amax, delaunay_b=b).build()
    w = f"{chk.wdir}/c10_{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    o = examine(pdk, dbu, gen.write_fastcap(output_dir_path=w, prefix='p'), drawn, box, filt, kvoid, f"{pdk}, {its}, --diel {pattern(filt)}")
    if o is None:
        return None, None
    return {'layouts': 1}, (pdk, o)


# ------------------------------------------------------------------ cases
ALL, NONE = ('all', ()), ('none', ())


def filters(pdk, full):
    d = STACK[pdk].diels
    yield ALL
    if not full:
        return
    yield NONE
    for n in d:
        yield ('all', (n,))
        yield ('none', (n,))
    for a, b in itertools.combinations(d, 2):
        if T or abs(d.index(a) - d.index(b)) == 1:
            yield ('none', (a, b))
            yield ('all', (a, b))


def metals(pdk):
    return [m['name'] for m in STACK[pdk].metals if m['name'] in STACK[pdk].lvs]


def tower(pdk, name, x=0, y=0, net='A'):
    """a metal (with the stack it needs to be drawn on)"""
    return [(name, net, 'box', x, y)]


def single_cases():
    for pdk in PDKS:
        for m in metals(pdk):
            for f in filters(pdk, True):
                yield (pdk, 0.001, ((m, 'A', 'box', 0, 0),), f, 3.9, 0.0, 0.5)
            for sh in ('L', 'two', 'bar'):
                for dbu in (0.001, 0.005):
                    for kv in (3.9, 1.0, 4.1) if sh == 'L' else (3.5,):
                        yield (pdk, dbu, ((m, 'A', sh, 0, 0),), ALL, kv, 0.0, 0.5)
            for amax, b in ((50, 0.5), (0.5, 0.5), (1.0, 1.0)):
                yield (pdk, 0.001, ((m, 'A', 'box', 0, 0),), ALL, 3.9, amax, b)


def contact_cases():
    for pdk in PDKS:
        s = STACK[pdk]
        for c, l, z0 in s.contacts():
            if c['name'] not in s.lvs or l['name'] not in s.lvs:
                continue
            above = [m for m in metals(pdk) if m == c['metal_above'] or s.lvs[m] == c['metal_above']] or \
                [m for m in metals(pdk) if s.gds[m] == s.gds.get(c['metal_above'])]
            tops = above[:1]
            base = ((l['name'], 'A', 'box', 0, 0), (c['name'], '', 'dot', 0, 0), *((t, 'A', 'box', 0, 0) for t in tops))
            for f in (ALL, NONE):
                for dbu in (0.001, 0.005):
                    yield (pdk, dbu, base, f, 3.9, 0.0, 0.5)
            yield (pdk, 0.001, base + ((l['name'], 'B', 'box', 0, 1000),), ALL, 3.9, 0.0, 0.5)
            yield (pdk, 0.001, ((l['name'], 'A', 'box', 0, 0), (c['name'], '', 'dot', 0, 0)), ALL, 3.9, 0.0, 0.5)
            for m in metals(pdk):
                yield (pdk, 0.001, base + ((m, 'C', 'box', 2000, 300),), ALL, 3.5, 0.0, 0.5)
            if s.kind(l) == 'DIFFUSION':
                for m in metals(pdk)[:3]:
                    yield (pdk, 0.001, base + ((m, 'C', 'bar', -600, 600),), ALL, 3.5, 0.0, 0.5)
                for g in (200, 1500, 2500):
                    second = tuple((n, 'B' if x else '', sh, 1000 + g, dy + 200) for n, x, sh, dx, dy in base)
                    yield (pdk, 0.001, base + second, ALL, 3.5, 0.0, 0.5)
                    yield (pdk, 0.005, base + second, ('all', (s.diels[0],)), 3.5, 0.0, 0.5)


def pair_cases():
    for pdk in PDKS:
        ms = metals(pdk)
        for a, b in itertools.combinations_with_replacement(ms, 2):
            for dx, dy in ((1100, 0), (400, 300), (1300, 900), (0, 0)) + (((3000, 0), (1000, 600), (1020, 0)) if T else ()):
                if a == b and dx < 1000:
                    continue
                for f in filters(pdk, T and dx == 400):
                    yield (pdk, 0.001, ((a, 'A', 'box', 0, 0), (b, 'B', 'box', dx, dy)), f, 3.9, 0.0, 0.5)
            yield (pdk, 0.001, ((a, 'A', 'L', 0, 0), (b, 'A', 'bar', 200, 100)), ALL, 1.0, 0.0, 0.5)
        for a, b in zip(ms, ms[1:]):
            for f in filters(pdk, True):
                yield (pdk, 0.001, ((a, 'A', 'box', 0, 0), (b, 'B', 'bar', 300, 200)), f, 3.9, 0.0, 0.5)
        # everything at once
        for f in filters(pdk, True):
            yield (pdk, 0.001, tuple((m, 'AB'[i % 2], ('box', 'L', 'bar')[i % 3], 200 * i, 150 * i) for i, m in enumerate(ms)), f, 3.9, 0.0, 0.5)


# ------------------------------------------------------------------ through the command line
def cli_body(case):
    pdk, its, filt, kvoid, amax = case
    w = f"{chk.wdir}/c10cli_{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/bin')
    l2n, drawn, box = layout(pdk, 0.001, its)
    l2n.write(w + '/t.lvsdb')
    with open(w + '/bin/fc', 'w') as f:
        f.write('#!/bin/sh\nexit 3\n')
    os.chmod(w + '/bin/fc', 0o755)
    argv = ['--pdk', pdk, '--lvsdb', 't.lvsdb', '--cell', 'TOP', '--out_dir', 'out', '--fastercap', '--blackbox', 'n']
    if kvoid is not None:
        argv += ['--k_void', str(kvoid)]
    if filt is not None:
        argv += ['--diel', pattern(filt)]
    if amax is not None:
        argv += ['--delaunay_amax', str(amax)]
    res = cli.kpex(argv, cwd=w, env={'KPEX_FASTERCAP_EXE': w + '/bin/fc'})
    d = w + '/out/t__TOP/FasterCap_Input_Files'
    l = [x for x in os.listdir(d) if x.endswith('.lst')] if os.path.isdir(d) else []
    if len(l) != 1:
        raise V(f"no input file for {argv}: {res}")
    # (reading the database from a file loses the names of unlabelled nets only)
    o = examine(pdk, 0.001, f"{d}/{l[0]}", drawn, box, filt or ALL, 3.9 if kvoid is None else kvoid, ' '.join(argv))
    return {'runs': 1}, (pdk, 'cli', o)


def cli_cases():
    for pdk in PDKS:
        ms = metals(pdk)
        d = STACK[pdk].diels
        its = ((ms[0], 'A', 'box', 0, 0), (ms[-1], 'B', 'bar', 200, 100), (ms[1], 'B', 'bar', 100, 50))
        for f in (None, NONE, ('all', (d[0],)), ('none', (d[-1], d[1]))):
            for kv in (None, 1, 4.1):
                yield (pdk, its, f, kv, None)
        for amax in (0, 0.3, 500):
            yield (pdk, its, None, None, amax)


chk.explore(single_cases(), body, stage='one conductor', chunk=10)
chk.explore(contact_cases(), body, stage='contacts', chunk=10)
chk.explore(pair_cases(), body, stage='several conductors', chunk=10)
chk.explore(cli_cases(), cli_body, stage='command line', chunk=2)
chk.finish()
