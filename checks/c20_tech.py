"""C20: technology files are complete and consistent; lookups return exactly the stored records."""
import itertools
import json
import math
import os
import re
import shutil
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core

chk = core.Check('C20', rule='every rule x every record or pair of records of both technology files; every lookup (and every ordered pair of lookups) '
                 'x every key x every dielectric filter; every small technology of the alphabet; outcomes are distinct rules / table sizes')
T = chk.thorough
core.quiet()
from google.protobuf import json_format
from klayout_pex.tech_info import TechInfo
from klayout_pex.util.multiple_choice import MultipleChoicePattern
V = core.Violation
PDKS = ('sky130A', 'ihp_sg13g2')
RAW = {p: json.load(open(os.path.join(core.PB, f'{p}_tech.pb.json'))) for p in PDKS}
REF = json.load(open(os.path.join(core.VERIF, 'data', 'pdk_reference.json')))
K0 = 8.8541878128          # aF/um


# ------------------------------------------------------------------ independent view of the JSON
def pair(d):
    d = d or {}
    return (d.get('layer', 0), d.get('datatype', 0))


def stack(raw):
    return raw.get('process_stack', {}).get('layers', [])


def par(raw, kind, table):
    return raw.get('process_parasitics', {}).get(kind, {}).get(table, [])


def typed(lyr):
    """the part of a stack layer which depends on its type"""
    for k, v in lyr.items():
        if k.endswith('_layer'):
            return v
    return {}


def multi(rows):
    d = {}
    for k, v in rows:
        d.setdefault(k, []).append(v)
    return d


def included(pattern, name):
    ps = [x.strip().lower() for x in pattern.split(',')]
    name = name.lower()
    if 'none' in ps:
        return '+' + name in ps
    return '-' + name not in ps


SUBS = 'VSUBS'
LT = 'LAYER_TYPE_'
DIEL = (LT + 'SIMPLE_DIELECTRIC', LT + 'CONFORMAL_DIELECTRIC', LT + 'SIDEWALL_DIELECTRIC')


def two_level(rows):
    d = {}
    for a, b, v in rows:
        d.setdefault(a, {}).setdefault(b, []).append(v)
    return d


def ref_overlap(raw):
    return two_level([(r['layer_name'], SUBS, {'top_layer_name': r['layer_name'], 'bottom_layer_name': SUBS, 'capacitance': r.get('area_capacitance', 0)})
                      for r in par(raw, 'capacitance', 'substrates')]
                     + [(r['top_layer_name'], r['bottom_layer_name'], r) for r in par(raw, 'capacitance', 'overlaps')])


def ref_side(raw):
    return two_level([(r['layer_name'], SUBS, {'in_layer_name': r['layer_name'], 'out_layer_name': SUBS, 'capacitance': r.get('perimeter_capacitance', 0)})
                      for r in par(raw, 'capacitance', 'substrates')]
                     + [(r['in_layer_name'], r['out_layer_name'], r) for r in par(raw, 'capacitance', 'sideoverlaps')])


def contacts(raw, types):
    return [(l, typed(l)['contact_above']) for l in stack(raw) if l['layer_type'] in [LT + t for t in types] and 'contact_above' in typed(l)]


def gds_of(raw, name):
    for r in reversed(raw.get('lvs_computed_layers', [])):
        if r['layer_info']['name'] == name:
            return pair(r['layer_info'].get('drw_gds_pair'))
    for r in reversed(raw.get('layers', [])):
        if r['name'] == name:
            return pair(r.get('drw_gds_pair'))
    return None


# name of the lookup -> function(raw technology, dielectric filter) -> {key: [records, any of which is right]} or value
LOOKUPS = {
    'gds_pair_for_computed_layer_name': lambda r, f: multi((c['layer_info']['name'], pair(c['layer_info'].get('drw_gds_pair'))) for c in r.get('lvs_computed_layers', [])),
    'computed_layer_info_by_name': lambda r, f: multi((c['layer_info']['name'], c) for c in r.get('lvs_computed_layers', [])),
    'computed_layer_info_by_gds_pair': lambda r, f: multi((pair(c['layer_info'].get('drw_gds_pair')), c) for c in r.get('lvs_computed_layers', [])),
    'canonical_layer_name_by_gds_pair': lambda r, f: multi((pair(c['layer_info'].get('drw_gds_pair')), c['original_layer_name']) for c in r.get('lvs_computed_layers', [])),
    'layer_info_by_name': lambda r, f: multi((l['name'], l) for l in r.get('layers', [])),
    'gds_pair_for_layer_name': lambda r, f: multi((l['name'], pair(l.get('drw_gds_pair'))) for l in r.get('layers', [])),
    'layer_info_by_gds_pair': lambda r, f: multi((pair(l.get('drw_gds_pair')), l) for l in r.get('layers', [])),
    'process_stack_layer_by_name': lambda r, f: multi((l['name'], l) for l in stack(r)),
    'process_metal_layers': lambda r, f: [l for l in stack(r) if l['layer_type'] == LT + 'METAL'],
    'process_diffusion_layers': lambda r, f: [l for l in stack(r) if l['layer_type'] == LT + 'DIFFUSION'],
    'filtered_dielectric_layers': lambda r, f: [l for l in stack(r) if l['layer_type'] in DIEL and included(f, l['name'])],
    'dielectric_by_name': lambda r, f: multi((l['name'], typed(l).get('dielectric_k', 0)) for l in stack(r) if l['layer_type'] in DIEL and included(f, l['name'])),
    'contact_by_device_lvs_layer_name': lambda r, f: multi((l['name'], typed(l).get('contact_above', {})) for l in stack(r) if l['layer_type'] in (LT + 'NWELL', LT + 'DIFFUSION')),
    'contact_by_contact_lvs_layer_name': lambda r, f: multi((c.get('name', ''), c) for _, c in contacts(r, ('NWELL', 'DIFFUSION', 'METAL'))),
    'bottom_and_top_layer_name_by_via_computed_layer_name': lambda r, f: multi((c['name'], (c['layer_below'], c['metal_above'])) for _, c in contacts(r, ('METAL',))),
    'layer_resistance_by_layer_name': lambda r, f: multi((x['layer_name'], x) for x in par(r, 'resistance', 'layers')),
    'contact_resistance_by_device_layer_name': lambda r, f: multi((x['device_layer_name'], x) for x in par(r, 'resistance', 'contacts')),
    'via_resistance_by_layer_name': lambda r, f: multi((x['via_name'], x) for x in par(r, 'resistance', 'vias')),
    'substrate_cap_by_layer_name': lambda r, f: multi((x['layer_name'], x) for x in par(r, 'capacitance', 'substrates')),
    'sidewall_cap_by_layer_name': lambda r, f: multi((x['layer_name'], x) for x in par(r, 'capacitance', 'sidewalls')),
    'overlap_cap_by_layer_names': lambda r, f: ref_overlap(r),
    'side_overlap_cap_by_layer_names': lambda r, f: ref_side(r),
    'pin_layer_mapping_for_drw_gds_pair': lambda r, f: multi((pair(l.get('drw_gds_pair')), pair(l['pin_gds_pair'])) for l in r.get('layers', []) if 'pin_gds_pair' in l),
    'process_stack_layer_by_gds_pair': lambda r, f: multi((gds_of(r, l['name']), l) for l in stack(r) if l['layer_type'] in [LT + t for t in ('NWELL', 'DIFFUSION', 'METAL')]),
    'contact_above_metal_layer_name': lambda r, f: multi((l['name'], x['original_layer_name']) for l, c in contacts(r, ('METAL',)) for x in r.get('lvs_computed_layers', [])
                                                         if pair(x['layer_info'].get('drw_gds_pair')) == gds_of(r, c['name'])),
    'internal_substrate_layer_name': lambda r, f: SUBS,
    'process_substrate_layer': lambda r, f: next(l for l in stack(r) if l['layer_type'] == LT + 'SUBSTRATE'),
    'field_oxide_layer': lambda r, f: next(l for l in stack(r) if l['layer_type'] == LT + 'FIELD_OXIDE'),
    'gate_poly_layer': lambda r, f: next(l for l in stack(r) if l['layer_type'] == LT + 'METAL'),
}


def num(v):
    """JSON value with numbers normalised to 32 bit floats (the precision of the protobuf fields)"""
    import struct
    if isinstance(v, bool) or isinstance(v, str) or v is None:
        return v
    if isinstance(v, (int, float)):
        return struct.unpack('f', struct.pack('f', float(v)))[0]
    if isinstance(v, dict):
        return {k: num(x) for k, x in v.items() if not (isinstance(x, (int, float)) and not x) and x != ''}
    return [num(x) for x in v]


def plain(v):
    if hasattr(v, 'DESCRIPTOR'):
        return num(json_format.MessageToDict(v, preserving_proto_field_name=True))
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return num(v)


def same(have, want, what):
    """have: result of the code under test (plain); want: dict of alternatives, or a value"""
    if isinstance(want, dict) and want and all(isinstance(x, list) for x in want.values()) or isinstance(want, dict) and not want:
        # a metal or well without contact: no entry, or an empty one without name
        hk, wk = {k for k in have if k != ''}, {k for k in want if k != ''}
        if hk != wk:
            raise V(f"{what}: keys {sorted(hk - wk, key=str)} too many, {sorted(wk - hk, key=str)} missing")
        for k in wk:
            if have[k] not in [plain(num(x)) for x in want[k]]:
                raise V(f"{what}[{k}] is {have[k]}, stored is {want[k]}")
    elif isinstance(want, dict) and all(isinstance(x, dict) and all(isinstance(y, list) for y in x.values()) for x in want.values()):
        if set(have) != set(want):
            raise V(f"{what}: keys {sorted(have)}, expected {sorted(want)}")
        for k in want:
            same(have[k], want[k], f"{what}[{k}]")
    elif have != plain(num(want)):
        raise V(f"{what} is {have}, stored is {want}")


def get(ti, name, what):
    try:
        return plain(getattr(ti, name))
    except Exception as e:
        raise V(f"{what}: {name} fails with {type(e).__name__}: {e}")


def load(path, f):
    return TechInfo.from_json(path, MultipleChoicePattern(f) if f is not None else None)


def lookup_body(case):
    pdk, f, names = case
    path = os.path.join(core.PB, f'{pdk}_tech.pb.json')
    ti = load(path, f)
    for n in names:
        same(get(ti, n, f"{pdk}, filter {f}"), LOOKUPS[n](RAW[pdk], f or 'all'), f"{pdk}, filter {f}, after {names}: {n}")
    # asking again gives the same
    for n in names[:1]:
        same(get(ti, n, f"{pdk}, filter {f}"), LOOKUPS[n](RAW[pdk], f or 'all'), f"{pdk}, filter {f}, again after {names}: {n}")
    if len(names) == 1:
        known = {l['name'] for l in RAW[pdk]['layers']} | {c['layer_info']['name'] for c in RAW[pdk]['lvs_computed_layers']}
        for n in known | {l['name'] for l in stack(RAW[pdk])} | {'nothing', ''}:
            g = ti.gds_pair(n)
            if (tuple(g) if g is not None else None) != gds_of(RAW[pdk], n):
                raise V(f"{pdk}: GDS pair of {n} is {g}, stored is {gds_of(RAW[pdk], n)}")
    return {'lookups': len(names)}, names[0]


def lookup_cases():
    for pdk in PDKS:
        ds = sorted({l['name'] for l in stack(RAW[pdk]) if l['layer_type'] in DIEL})
        fs = [None, 'all', 'none'] + [f"none,+{d}" for d in ds] + [f"all,-{d}" for d in ds] + [f"none,+{a},+{b}" for a, b in itertools.combinations(ds, 2)]
        for f in fs:
            yield (pdk, f, tuple(LOOKUPS))
            for n in ('filtered_dielectric_layers', 'dielectric_by_name'):
                yield (pdk, f, (n,))
        for n in LOOKUPS:
            yield (pdk, None, (n,))
        for a, b in itertools.permutations(LOOKUPS, 2):
            yield (pdk, None, (a, b))
        if T:
            for a, b, c in itertools.permutations(LOOKUPS, 3):
                yield (pdk, 'all', (a, b, c))


# ------------------------------------------------------------------ small technologies
def tech(layers=(), computed=(), stk=(), res=(), cap=()):
    return {'name': 't', 'layers': list(layers), 'lvs_computed_layers': list(computed), 'process_stack': {'layers': list(stk)},
            'process_parasitics': {'side_halo': 8, 'resistance': dict(res), 'capacitance': dict(cap)}}


def subsets(xs):
    xs = list(xs)
    for k in range(len(xs) + 1):
        yield from itertools.combinations(xs, k)


def small_techs():
    # capacitance tables: every set of records of three layers
    prs = [('A', 'B'), ('B', 'A'), ('C', 'A'), ('A', 'VSUBS')] if T else [('A', 'B'), ('B', 'A'), ('C', 'A')]
    for sub in subsets('AB'):
        for ov in subsets(prs):
            for so in subsets(prs):
                yield tech(cap={'substrates': [{'layer_name': x, 'area_capacitance': 10 + i, 'perimeter_capacitance': 20 + i} for i, x in enumerate(sub)],
                                'overlaps': [{'top_layer_name': a, 'bottom_layer_name': b, 'capacitance': 30 + i} for i, (a, b) in enumerate(ov)],
                                'sideoverlaps': [{'in_layer_name': a, 'out_layer_name': b, 'capacitance': 40 + i} for i, (a, b) in enumerate(so)],
                                'sidewalls': [{'layer_name': x, 'capacitance': 50 + i, 'offset': 0.25 * i} for i, x in enumerate(sub)]})
    # layers and computed layers
    lay = [{'name': n, 'drw_gds_pair': {'layer': g, 'datatype': d}, 'purpose': 'PURPOSE_METAL'} for n, g, d in (('A', 1, 0), ('B', 1, 1), ('C', 2, 0), ('0', 0, 0))]
    comp = [{'kind': 'KIND_REGULAR', 'original_layer_name': o, 'layer_info': {'name': n, 'drw_gds_pair': {'layer': g, 'datatype': d}}}
            for n, o, g, d in (('a_con', 'A', 1, 0), ('a_cap', 'A', 1, 200), ('B', 'B', 1, 1), ('A', 'C', 2, 0))]
    for a in subsets(lay):
        for b in subsets(comp):
            yield tech(layers=a, computed=b)
    # stacks: every sequence of up to three (four) layers
    co = {'name': 'via', 'layer_below': 'A', 'metal_above': 'B', 'thickness': 0.5, 'width': 0.25}
    kinds = [{'name': 'm', 'layer_type': LT + 'METAL', 'metal_layer': {'z': 1, 'thickness': 0.5}},
             {'name': 'n', 'layer_type': LT + 'METAL', 'metal_layer': {'z': 2, 'thickness': 0.5, 'contact_above': co}},
             {'name': 'w', 'layer_type': LT + 'NWELL', 'nwell_layer': {'z': 0.5, 'contact_above': dict(co, name='cw')}},
             {'name': 'd', 'layer_type': LT + 'DIFFUSION', 'diffusion_layer': {'contact_above': dict(co, name='cd')}},
             {'name': 'e', 'layer_type': LT + 'DIFFUSION', 'diffusion_layer': {}},
             {'name': 'q', 'layer_type': LT + 'SIMPLE_DIELECTRIC', 'simple_dielectric_layer': {'dielectric_k': 4}},
             {'name': 'r', 'layer_type': LT + 'CONFORMAL_DIELECTRIC', 'conformal_dielectric_layer': {'dielectric_k': 5, 'reference': 'm'}},
             {'name': 's', 'layer_type': LT + 'SIDEWALL_DIELECTRIC', 'sidewall_dielectric_layer': {'dielectric_k': 6, 'reference': 'n'}}]
    base = [{'name': 'subs', 'layer_type': LT + 'SUBSTRATE', 'substrate_layer': {'thickness': 0.25}}, {'name': 'fox', 'layer_type': LT + 'FIELD_OXIDE', 'field_oxide_layer': {'dielectric_k': 3}}]
    for n in range(0, 5 if T else 4):
        for s in itertools.permutations(kinds, n):
            yield tech(stk=base + list(s))
    # resistances
    for a in subsets('AB'):
        for b in subsets('ABC'):
            for c in subsets('AB'):
                yield tech(res={'layers': [{'layer_name': x, 'resistance': 100 + i} for i, x in enumerate(a)],
                                'contacts': [{'contact_name': 'k' + x, 'device_layer_name': x, 'layer_above': 'M', 'resistance': 200 + i} for i, x in enumerate(b)],
                                'vias': [{'via_name': x, 'resistance': 300 + i} for i, x in enumerate(c)]})


def small_body(case):
    i, raw = case
    d = f"{chk.wdir}/c20_{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/t.pb.json"
    with open(p, 'w') as f:
        json.dump(raw, f)
    what = f"technology {json.dumps({k: v for k, v in raw.items() if v})}"
    for f in (None, 'none,+q', 'all,-r,-s') if any(l['layer_type'] in DIEL for l in stack(raw)) else (None,):
        ti = load(p, f)
        for n in LOOKUPS:
            if n == 'gate_poly_layer' and not any(l['layer_type'] == LT + 'METAL' for l in stack(raw)):
                continue
            if n in ('contact_above_metal_layer_name', 'process_stack_layer_by_gds_pair') and stack(raw):
                continue        # (the layers of these stacks are not drawn)
            if n in ('process_substrate_layer', 'field_oxide_layer') and not stack(raw):
                continue
            same(get(ti, n, what), LOOKUPS[n](raw, f or 'all'), f"{what}: {n}")
    return {'technologies': 1}, (len(stack(raw)), len(raw['layers']), len(raw['lvs_computed_layers']), len(par(raw, 'capacitance', 'overlaps')))


# ------------------------------------------------------------------ consistency of the shipped technologies
def canon(raw):
    """name used anywhere -> canonical name of the drawn layer"""
    d = {l['name']: l['name'] for l in raw['layers']}
    d.update({c['layer_info']['name']: c['original_layer_name'] for c in raw['lvs_computed_layers']})
    return d


def geometry(raw):
    """canonical conductor name -> (bottom, top) in um"""
    c = canon(raw)
    z = {}
    for l in stack(raw):
        if l['layer_type'] == LT + 'METAL':
            m = typed(l)
            z.setdefault(c.get(l['name'], l['name']), []).append((m.get('z', 0), m.get('z', 0) + m.get('thickness', 0)))
    return z


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def need(ok, msg, key=None):
    if not ok:
        raise V(msg, key)


@rule
def unique(raw, pdk):
    """(table, key) -> one record"""
    def one(table, keys):
        for k in keys:
            yield (table, str(k)), keys.count(k) == 1, f"{table}: {k} is there {keys.count(k)} times"
    yield from one('layers', [l['name'] for l in raw['layers']])
    yield from one('GDS numbers', [pair(l['drw_gds_pair']) for l in raw['layers']])
    yield from one('computed layers', [c['layer_info']['name'] for c in raw['lvs_computed_layers']])
    yield from one('layer resistances', [x['layer_name'] for x in par(raw, 'resistance', 'layers')])
    yield from one('contact resistances', [x['contact_name'] for x in par(raw, 'resistance', 'contacts')])
    yield from one('via resistances', [x['via_name'] for x in par(raw, 'resistance', 'vias')])
    yield from one('substrate capacitances', [x['layer_name'] for x in par(raw, 'capacitance', 'substrates')])
    yield from one('sidewall capacitances', [x['layer_name'] for x in par(raw, 'capacitance', 'sidewalls')])
    # (the same value twice is no contradiction; low and high voltage active areas have one name, and are not extracted)
    act = ('diff', 'activ')
    yield from one('overlap capacitances', list({(x['top_layer_name'], x['bottom_layer_name'], x['capacitance']): (x['top_layer_name'], x['bottom_layer_name'])
                                                 for x in par(raw, 'capacitance', 'overlaps') if x['bottom_layer_name'].lower() not in act}.values()))
    yield from one('fringe capacitances', list({(x['in_layer_name'], x['out_layer_name'], x['capacitance']): (x['in_layer_name'], x['out_layer_name'])
                                                for x in par(raw, 'capacitance', 'sideoverlaps') if x['out_layer_name'].lower() not in act}.values()))
    # one GDS pair stands for one canonical layer
    m = multi((pair(c['layer_info']['drw_gds_pair']), c['original_layer_name']) for c in raw['lvs_computed_layers'])
    for k, v in m.items():
        yield ('canonical layer', str(k)), len(set(v)) == 1, f"computed layers {k} stand for {sorted(set(v))}"
    names = [c[1]['name'] for c in contacts(raw, ('NWELL', 'DIFFUSION', 'METAL')) if c[1].get('name')]
    yield from one('contacts of the stack', names)
    # shapes are looked up by GDS pair: two contacts (or conductors) of the stack must not share one
    cp = {c['layer_info']['name']: pair(c['layer_info']['drw_gds_pair']) for c in raw['lvs_computed_layers']}
    used = {n for n in names} | {l['name'] for l in stack(raw) if l.get('layer_type', '').endswith(('METAL', 'DIFFUSION', 'NWELL'))}
    yield from one('GDS numbers of layers of the stack', [cp[n] for n in sorted(used) if n in cp])


@rule
def references(raw, pdk):
    ln = {l['name']: l for l in raw['layers']}
    comp = {c['layer_info']['name']: c for c in raw['lvs_computed_layers']}
    sn = [l['name'] for l in stack(raw)]
    for n, c in comp.items():
        o = c['original_layer_name']
        kind = c['kind']
        base = re.sub(r'\.(pin|label|text)$', '', o) if kind in ('KIND_PIN', 'KIND_LABEL') else o
        yield ('original', n), base in ln, f"computed layer {n} refers to the layer {o}, which does not exist"
        if base not in ln:
            continue
        for k, f in (('KIND_PIN', 'pin_gds_pair'), ('KIND_LABEL', 'label_gds_pair')):
            if kind == k:
                yield (f, n), pair(c['layer_info']['drw_gds_pair']) == pair(ln[base].get(f)), f"computed layer {n}: GDS numbers differ from the {f} of {base}"
    have = {k: {re.sub(r'\.(pin|label|text)$', '', c['original_layer_name']) for c in comp.values() if c['kind'] == k} for k in ('KIND_PIN', 'KIND_LABEL', 'KIND_REGULAR')}
    for n, l in ln.items():
        if l.get('purpose') == 'PURPOSE_METAL':
            for k in have:
                yield (k, n), n in have[k], f"there is no computed layer ({k}) of {n}"
        elif l.get('purpose') in ('PURPOSE_CONTACT', 'PURPOSE_VIA'):
            yield ('via', n), n in have['KIND_REGULAR'], f"there is no computed layer of {n}"
    for i, l in enumerate(stack(raw)):
        r = typed(l).get('reference')
        if r is not None:
            below = set(sn[:i]) if l['layer_type'] not in (LT + 'SUBSTRATE', LT + 'NWELL', LT + 'DIFFUSION') else set(sn)
            # the plates of the capacitors may be listed after their dielectric
            ok = r in below or (r in sn and r in comp and comp[r]['kind'] == 'KIND_DEVICE_CAPACITOR')
            yield ('reference', f"{l['name']}#{i}"), ok, f"stack layer {l['name']} refers to {r}, which is not below it"
        if l['layer_type'] == LT + 'METAL':
            yield ('stack', l['name']), l['name'] in ln or l['name'] in comp, f"the stack layer {l['name']} is no known layer"
    for t, f in (('layers', 'layer_name'),):
        for x in par(raw, 'resistance', t):
            yield ('resistance', x[f]), x[f] in ln, f"resistance of {x[f]}, which does not exist"
    for x in par(raw, 'resistance', 'contacts'):
        for f in ('contact_name', 'device_layer_name', 'layer_above'):
            yield ('contact ' + f, x[f] + ' of ' + x['contact_name']), x[f] in ln or x[f] in comp, f"contact resistance refers to {x[f]}"
    for t, fs in (('substrates', ['layer_name']), ('sidewalls', ['layer_name']), ('overlaps', ['top_layer_name', 'bottom_layer_name']), ('sideoverlaps', ['in_layer_name', 'out_layer_name'])):
        for i, x in enumerate(par(raw, 'capacitance', t)):
            for f in fs:
                # wells which are not drawn (pwell = everything outside nwell) are named all the same
                yield (t, f"{f} {x[f]}"), x[f] in ln or x[f].lower() in ('pwell', 'nwell'), f"{t}: {f} {x[f]} does not exist"


def metals(raw):
    """canonical metals from bottom to top"""
    z = geometry(raw)
    ms = {l['name'] for l in raw['layers'] if l.get('purpose') == 'PURPOSE_METAL'}
    return sorted((n for n in z if n in ms), key=lambda n: z[n][0])


@rule
def complete(raw, pdk):
    ms = {l['name'] for l in raw['layers'] if l.get('purpose') == 'PURPOSE_METAL'}
    z = geometry(raw)
    res = {x['layer_name'] for x in par(raw, 'resistance', 'layers')}
    sub = {x['layer_name'] for x in par(raw, 'capacitance', 'substrates')}
    sw = {x['layer_name'] for x in par(raw, 'capacitance', 'sidewalls')}
    for m in sorted(ms):
        yield ('stack', m), m in z, f"{m} is not in the stack"
        yield ('resistance', m), m in res, f"{m} has no sheet resistance"
        yield ('substrate', m), m in sub, f"{m} has no capacitance to the substrate"
        yield ('sidewall', m), m in sw, f"{m} has no sidewall capacitance"
    ov = {(x['top_layer_name'], x['bottom_layer_name']) for x in par(raw, 'capacitance', 'overlaps')}
    so = {(x['in_layer_name'], x['out_layer_name']) for x in par(raw, 'capacitance', 'sideoverlaps')}
    order = metals(raw)
    for i, a in enumerate(order):
        for b in order[i + 1:]:
            yield ('overlap', f"{b}/{a}"), ((b, a) in ov) and ((a, b) not in ov), f"{b} over {a}: no (or no unambiguous) overlap capacitance"
            yield ('fringe', f"{b}/{a}"), (b, a) in so, f"no fringe capacitance of {b} to {a}"
            yield ('fringe', f"{a}/{b}"), (a, b) in so, f"no fringe capacitance of {a} to {b}"
    # vias
    vr = {x['via_name'] for x in par(raw, 'resistance', 'vias')}
    cr = {x['contact_name']: x for x in par(raw, 'resistance', 'contacts')}
    st = {c['name']: (l, c) for l, c in contacts(raw, ('NWELL', 'DIFFUSION', 'METAL')) if c.get('name')}
    can = canon(raw)
    for c in raw['lvs_computed_layers']:
        n, pu = c['layer_info']['name'], c['layer_info'].get('purpose')
        if c['kind'] == 'KIND_REGULAR' and pu in ('PURPOSE_VIA', 'PURPOSE_CONTACT'):
            yield ('stack', n), n in st, f"{n} is not in the stack"
            if pu == 'PURPOSE_VIA':
                yield ('via', n), c['original_layer_name'] in vr, f"{n} ({c['original_layer_name']}) has no resistance"
            else:
                yield ('contact', n), n in cr, f"{n} has no resistance"
                if n in cr and n in st:
                    yield ('ends', n), (can.get(cr[n]['device_layer_name']), can.get(cr[n]['layer_above'])) == (can.get(st[n][1]['layer_below']), can.get(st[n][1]['metal_above'])), \
                        f"{n}: the ends of the contact are different in the stack and in the table of resistances"


@rule
def positive(raw, pdk):
    def pos(what, v, zero=False):
        return (what[0], what[1]), isinstance(v, (int, float)) and math.isfinite(v) and (v > 0 or zero and v >= 0), f"{what}: {v}"
    yield pos(('side halo', ''), raw['process_parasitics'].get('side_halo', 0))
    for t, f in (('layers', 'layer_name'), ('contacts', 'contact_name'), ('vias', 'via_name')):
        for x in par(raw, 'resistance', t):
            yield pos(('resistance', x[f]), x.get('resistance', 0))
    for x in par(raw, 'capacitance', 'substrates'):
        yield pos(('area', x['layer_name']), x.get('area_capacitance', 0))
        yield pos(('perimeter', x['layer_name']), x.get('perimeter_capacitance', 0))
    for t, a, b in (('overlaps', 'top_layer_name', 'bottom_layer_name'), ('sideoverlaps', 'in_layer_name', 'out_layer_name')):
        for x in par(raw, 'capacitance', t):
            yield pos((t, f"{x[a]}/{x[b]}"), x.get('capacitance', 0))
    for x in par(raw, 'capacitance', 'sidewalls'):
        yield pos(('sidewall', x['layer_name']), x.get('capacitance', 0))
        yield ('offset', x['layer_name']), -0.1 < x.get('offset', 0) < 3, f"sidewall offset of {x['layer_name']}: {x.get('offset', 0)}"
    for i, l in enumerate(stack(raw)):
        v = typed(l)
        if l['layer_type'] in DIEL or l['layer_type'] == LT + 'FIELD_OXIDE':
            # (iox of sky130A really is given with 0.39)
            yield ('dielectric_k', f"{l['name']}#{i}"), 0.1 < v.get('dielectric_k', 0) < 15, f"dielectric constant of {l['name']}: {v.get('dielectric_k', 0)}"
        for f in ('thickness_over_metal', 'thickness_where_no_metal', 'thickness_sidewall', 'height_above_metal', 'width_outside_sidewall', 'z'):
            yield pos((f, f"{l['name']}#{i}"), v.get(f, 0), True)
        if l['layer_type'] == LT + 'METAL':
            yield pos(('thickness', l['name']), v.get('thickness', 0))
        c = v.get('contact_above')
        if c and c.get('name'):
            for f in ('thickness', 'width', 'spacing'):
                yield pos((f, c['name']), c.get(f, 0))
            yield pos(('border', c['name']), c.get('border', 0), True)


@rule
def heights(raw, pdk):
    z = geometry(raw)
    for n, l in z.items():
        yield ('one height', n), len(set(l)) == 1, f"{n} has different heights {l}"
    zz = [(typed(l).get('z', 0), l['name']) for l in stack(raw) if l['layer_type'] == LT + 'METAL']
    for (a, n), (b, m) in zip(zz, zz[1:]):
        yield ('order', m), a <= b, f"the stack lists {m} (at {b}) after {n} (at {a})"
    ms = metals(raw)
    for a, b in zip(ms, ms[1:]):
        yield ('gap', b), z[a][0][1] < z[b][0][0], f"{b} starts at {z[b][0][0]}, within {a} (up to {z[a][0][1]})"
    can = canon(raw)
    for l, c in contacts(raw, ('METAL',)):
        own, below, above = (can.get(x, x) for x in (l['name'], c['layer_below'], c['metal_above']))
        yield ('layer below', c['name']), own == below, f"{c['name']} is above {l['name']}, and its layer below is {c['layer_below']}"
        if above in z:
            gap = z[above][0][0] - (typed(l).get('z', 0) + typed(l).get('thickness', 0))
            yield ('thickness', c['name']), abs(gap - c['thickness']) < 1e-6, \
                f"{c['name']} is {c['thickness']} high, the distance of {l['name']} and {c['metal_above']} is {gap:.6g}"


@rule
def coefficients(raw, pdk):
    """capacitance tables against the stack: plate capacitors of the dielectrics between"""
    z = {n: l[0] for n, l in geometry(raw).items()}
    ks = [typed(l).get('dielectric_k', 0) for l in stack(raw) if l['layer_type'] in (LT + 'SIMPLE_DIELECTRIC', LT + 'FIELD_OXIDE')
          and l['name'] != 'air']
    lo, hi = min(ks) * 0.88, max(ks) * 1.05
    ov = {(x['top_layer_name'], x['bottom_layer_name']): x['capacitance'] for x in par(raw, 'capacitance', 'overlaps')}
    sub = {x['layer_name']: x for x in par(raw, 'capacitance', 'substrates')}
    so = {(x['in_layer_name'], x['out_layer_name']): x['capacitance'] for x in par(raw, 'capacitance', 'sideoverlaps')}

    def k_of(cap, d):
        return cap * d / K0
    ms = metals(raw)
    for (a, b), c in ov.items():
        if a in z and b in z:
            k = k_of(c, z[a][0] - z[b][1])
            yield ('k', f"{a}/{b}"), lo <= k <= hi, f"overlap {a}/{b} = {c} aF/um2 means a dielectric constant of {k:.3f}, the stack has {min(ks)} to {max(ks)}"
        if a in sub and b.lower() in ('nwell', 'pwell'):
            yield ('well', f"{a}/{b}"), abs(c - sub[a]['area_capacitance']) < 1e-3 * c, f"overlap {a}/{b} = {c} differs from the substrate capacitance {sub[a]['area_capacitance']}"
    for (a, b), c in so.items():
        if a in sub and b.lower() in ('nwell', 'pwell'):
            yield ('well fringe', f"{a}/{b}"), abs(c - sub[a]['perimeter_capacitance']) < 1e-3 * c, f"fringe {a}/{b} = {c} differs from the substrate's {sub[a]['perimeter_capacitance']}"
    for m in ms:
        k = k_of(sub[m]['area_capacitance'], z[m][0])
        yield ('k', f"{m}/substrate"), lo <= k <= hi, f"substrate capacitance of {m} means a dielectric constant of {k:.3f}"
    for i, m in enumerate(ms):
        down = [(sub[m]['area_capacitance'], 'substrate')] + [(ov[m, x], x) for x in ms[:i] if (m, x) in ov]
        for (p, n1), (q, n2) in zip(down, down[1:]):
            yield ('overlap order', f"{m}/{n2}"), p < q, f"{m}: capacitance {q} to {n2}, and {p} to {n1}, which is further away"
        down = [(so[m, x], x) for x in ms[:i] if (m, x) in so]
        for (p, n1), (q, n2) in zip(down, down[1:]):
            yield ('fringe order', f"{m}/{n2}"), p < q, f"{m}: fringe {q} to {n2}, and {p} to {n1}, which is further away"


@rule
def drawn(raw, pdk):
    """layers against the KLayout layer properties and LVS rules which come with the PDK"""
    d = os.path.join(core.REPO, 'pdk', pdk, 'libs.tech', 'kpex')
    lyp = {}
    words, nums = set(), set()
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith('.lyp'):
                for e in ET.parse(os.path.join(r, f)).getroot().iter('properties'):
                    m = re.match(r'^\s*(\d+)/(\d+)', e.findtext('source') or '')
                    if m:
                        lyp.setdefault((int(m.group(1)), int(m.group(2))), []).append((e.findtext('name') or '').lower())
            elif f.endswith('.lvs'):
                txt = open(os.path.join(r, f), encoding='utf-8', errors='replace').read()
                words |= set(re.findall(r'\w+', txt))
                nums |= {(int(a), int(b)) for a, b in re.findall(r'\(\s*(\d+)\s*,\s*(\d+)\s*\)', txt)}
    if len(lyp) < 50 or len(words) < 200:
        raise core.HarnessError('PDK files not found')
    for l in raw['layers']:
        base = re.sub(r'\d+$', '', l['name'].lower()) if l['name'].lower() == 'licon1' else l['name'].lower()
        for f in ('drw_gds_pair', 'pin_gds_pair', 'label_gds_pair'):
            if f in l:
                n = lyp.get(pair(l[f]), [])
                # (the layer properties of ihp_sg13g2 lack GatPoly.text)
                ok = any(x.startswith(base) for x in n) or not n and pair(l[f]) in nums
                yield (f, l['name']), ok, f"{l['name']}: {f} {pair(l[f])} is {n} in the layer properties of KLayout"
    for c in raw['lvs_computed_layers']:
        n = c['layer_info']['name']
        yield ('LVS name', n), n in words, f"the LVS rules have no layer {n}"


@rule
def reference(raw, pdk):
    """the published process data (transcribed when the check was written)"""
    ref = REF[pdk]
    have = {
        'gds': {n: list(gds_of({'layers': raw['layers']}, n) or ()) for n in ref['gds']},
        'metal': {l['name']: [typed(l).get('z', 0), typed(l).get('thickness', 0)] for l in stack(raw) if l['layer_type'] == LT + 'METAL'},
        'resistance': {x['layer_name']: x['resistance'] for x in par(raw, 'resistance', 'layers')},
        'contact': {x['contact_name']: x['resistance'] for x in par(raw, 'resistance', 'contacts')},
        'via': {x['via_name']: x['resistance'] for x in par(raw, 'resistance', 'vias')},
        'width': {c['name']: c.get('width', 0) for _, c in contacts(raw, ('DIFFUSION', 'METAL')) if c.get('name')},
        'area': {x['layer_name']: x['area_capacitance'] for x in par(raw, 'capacitance', 'substrates')},
        'perimeter': {x['layer_name']: x['perimeter_capacitance'] for x in par(raw, 'capacitance', 'substrates')},
        'sidewall': {x['layer_name']: [x['capacitance'], x.get('offset', 0)] for x in par(raw, 'capacitance', 'sidewalls')},
        'overlap': {x['top_layer_name'] + '/' + x['bottom_layer_name']: x['capacitance'] for x in par(raw, 'capacitance', 'overlaps')},
        'fringe': {x['in_layer_name'] + '/' + x['out_layer_name']: x['capacitance'] for x in par(raw, 'capacitance', 'sideoverlaps')},
        'k': {l['name']: typed(l).get('dielectric_k', 0) for l in stack(raw) if l['layer_type'] in DIEL or l['layer_type'] == LT + 'FIELD_OXIDE'},
    }
    if os.environ.get('KV_C20_DUMP'):
        json.dump(have, open(f"{os.environ['KV_C20_DUMP']}_{pdk}.json", 'w'))
    for t in ref:
        for n, v in ref[t].items():
            h = have[t].get(n)
            ok = h is not None and num(h) == num(v) or (h is not None and all(abs(a - b) <= 1e-6 * max(abs(a), abs(b)) for a, b in zip(*[x if isinstance(x, list) else [x] for x in (h, v)])))
            yield (t, n), ok, f"{t} of {n} is {h}, the process data have {v}"


def rule_body(case):
    pdk, name, what = case
    n = 0
    for k, ok, msg in RULES[name](RAW[pdk], pdk):
        if k == what:
            n += 1
            need(ok, f"{pdk}: {msg}", f"{pdk} {name} {what[0]} {what[1]}")
    return {'facts': n}, (name, what[0])


def rule_cases():
    for pdk in PDKS:
        for n in RULES:
            seen = set()
            for k, _, _ in RULES[n](RAW[pdk], pdk):
                if k not in seen:
                    seen.add(k)
                    yield (pdk, n, k)


chk.explore(lookup_cases(), lookup_body, stage='lookups', chunk=20)
chk.explore(list(enumerate(small_techs())), small_body, stage='small technologies', chunk=50)
chk.explore(rule_cases(), rule_body, stage='rules', chunk=50)
chk.finish()
