"""Builds KLayout LVS databases directly from shapes, the way the LVS decks of /repo/pdk do (same computed
layer names, same connectivity), without running the (not installed) klayout executable."""
from __future__ import annotations

import functools
import json
import os

import klayout.db as kdb

from . import core

SKY = 'sky130A'
IHP = 'ihp_sg13g2'

STACK = {
    SKY: ['poly_con', 'licon_poly_con', 'li_con', 'mcon_con', 'met1_con', 'via1_con', 'met2_con', 'via2_con',
          'met3_ncap', 'via3_ncap', 'met4_ncap', 'via4_ncap', 'met5_con'],
    IHP: ['poly_con', 'cont_poly_con', 'metal1_con', 'via1_drw', 'metal2_con', 'via2_drw', 'metal3_con', 'via3_drw',
          'metal4_con', 'via4_drw', 'metal5_n_cap', 'topvia1_n_cap', 'topmetal1_con', 'topvia2_drw', 'topmetal2_con'],
}
# metal level -> (conductor layer, text layer, pin layer)
LEVELS = {
    SKY: [('poly_con', 'poly_label', 'poly_pin_con'), ('li_con', 'li_label', 'li_pin_con'),
          ('met1_con', 'met1_label', 'met1_pin_con'), ('met2_con', 'met2_label', 'met2_pin_con'),
          ('met3_ncap', 'met3_label', 'met3_pin_con'), ('met4_ncap', 'met4_label', 'met4_pin_con'),
          ('met5_con', 'met5_label', 'met5_pin_con')],
    IHP: [('poly_con', 'poly_text', 'poly_pin_con'), ('metal1_con', 'metal1_text', 'metal1_pin_con'),
          ('metal2_con', 'metal2_text', 'metal2_pin_con'), ('metal3_con', 'metal3_text', 'metal3_pin_con'),
          ('metal4_con', 'metal4_text', 'metal4_pin_con'), ('metal5_n_cap', 'metal5_text', 'metal5_pin_con'),
          ('topmetal1_con', 'topmetal1_text', 'topmetal1_pin_con'),
          ('topmetal2_con', 'topmetal2_text', 'topmetal2_pin_con')],
}
EXTRA = {
    SKY: [('met3_ncap', 'met3_cap'), ('via2_con', 'met3_cap'), ('capm', 'via3_cap'), ('via3_cap', 'met4_ncap'),
          ('met4_ncap', 'met4_cap'), ('via3_ncap', 'met4_cap'), ('capm2', 'via4_cap'), ('via4_cap', 'met5_con'),
          ('licon_nsd_con', 'nsd'), ('licon_nsd_con', 'li_con'), ('licon_psd_con', 'psd'), ('licon_psd_con', 'li_con')],
    IHP: [('metal5_n_cap', 'metal5_cap'), ('via4_drw', 'metal5_cap'), ('cmim_top', 'mim_via'),
          ('mim_via', 'topmetal1_con'), ('cont_nsd_con', 'nsd_fet'), ('cont_nsd_con', 'metal1_con'),
          ('cont_psd_con', 'psd_fet'), ('cont_psd_con', 'metal1_con')],
}


def tech_path(pdk):
    return os.path.join(core.PB, f'{pdk}_tech.pb.json')


@functools.lru_cache(None)
def tech_json(pdk):
    with open(tech_path(pdk)) as f:
        return json.load(f)


@functools.lru_cache(None)
def gds_of(pdk):
    """computed layer name -> GDS pair; for duplicates the first one"""
    d = {}
    for l in tech_json(pdk)['lvs_computed_layers']:
        p = l['layer_info']['drw_gds_pair']
        d.setdefault(l['layer_info']['name'], (p['layer'], p.get('datatype', 0)))
    return d


def connections(pdk):
    s = STACK[pdk]
    c = list(zip(s, s[1:]))
    c += [(m, p) for m, _, p in LEVELS[pdk]]
    c += EXTRA[pdk]
    return c


def text_layer_of(pdk, layer):
    for m, t, _ in LEVELS[pdk]:
        if m == layer:
            return t
    raise KeyError(layer)


def make(pdk, shapes, labels=(), dbu=0.001, cell='TOP', path=None, join=False, layout=None, gds=None, other_names=None,
         devices=(), floating=False):
    """shapes: {computed layer name: [kdb.Box/Polygon]}; labels: [(conductor layer, text, x, y)].
    join: nets of the same label are one net. layout: use this kdb.Layout (layers by gds_of) instead of shapes,
    shapes then only names the layers. devices: [(cap|res|mos3|diode, class name, {extractor layer: computed layer})]
    """
    gds = gds or gds_of(pdk)
    if layout is None:
        ly = kdb.Layout()
        ly.dbu = dbu
        top = ly.create_cell(cell)
        for name, polys in shapes.items():
            li = ly.layer(*gds[name])
            for p in polys:
                top.shapes(li).insert(p)
    else:
        ly = layout
        top = ly.top_cell()
    tx = {}
    for k, (lay, text, x, y) in enumerate(labels):
        t = text_layer_of(pdk, lay)
        li = ly.layer(*gds[t]) if t in gds else ly.layer(1000, list(STACK[pdk]).index(lay))
        top.shapes(li).insert(kdb.Text(text, x, y))
        tx[lay] = (t, li)
    l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
    regs = {}
    for name in shapes:
        regs[name] = l2n.make_layer(ly.layer(*gds[name]), (other_names or {}).get(name, name))
    txr = {lay: l2n.make_text_layer(li, t) for lay, (t, li) in tx.items()}
    for kind, name, lays in devices:
        ex = {'cap': lambda: kdb.DeviceExtractorCapacitor(name, 2e-15),
              'res': lambda: kdb.DeviceExtractorResistor(name, 100.0),
              'mos3': lambda: kdb.DeviceExtractorMOS3Transistor(name),
              'diode': lambda: kdb.DeviceExtractorDiode(name)}[kind]()
        l2n.extract_devices(ex, {t: regs[l] for t, l in lays.items()})
    for r in regs.values():
        l2n.connect(r)
    for a, b in connections(pdk):
        if a in regs and b in regs:
            l2n.connect(regs[a], regs[b])
    for lay, t in txr.items():
        if lay in regs:
            l2n.connect(regs[lay], t)
    if join:
        l2n.join_net_names('*')
    l2n.include_floating_subcircuits = floating
    l2n.extract_netlist()
    if path:
        l2n.write(path)
    l2n._kv_layout = ly   # keep alive
    return l2n
