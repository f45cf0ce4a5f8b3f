"""Runs the 2.5D engine of the code under test on shapes given as boxes."""
from __future__ import annotations

import functools
import os

from . import core, pylvs


@functools.lru_cache(None)
def mods():
    import klayout.db as kdb
    core.quiet()
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    from klayout_pex.rcx25.extractor import RCX25Extractor
    from klayout_pex.rcx25.pex_mode import PEXMode
    from klayout_pex.tech_info import TechInfo

    class M:
        pass
    m = M()
    m.kdb, m.Ctx, m.RCX, m.Mode, m.TechInfo = kdb, KLayoutExtractionContext, RCX25Extractor, PEXMode, TechInfo
    return m


@functools.lru_cache(None)
def tech(pdk, halo=None):
    t = mods().TechInfo.from_json(pylvs.tech_path(pdk), None)
    if halo is not None:
        t.tech.process_parasitics.side_halo = halo
    return t


def context(l2n, pdk, halo=None, blackbox=False, cell='TOP'):
    m = mods()
    return m.Ctx.prepare_extraction(lvsdb=l2n, top_cell=cell, tech=tech(pdk, halo), blackbox_devices=blackbox)


def extract(l2n, pdk, mode='CC', scale=True, halo=None, blackbox=False, cell='TOP', report='rep.rdb'):
    m = mods()
    ctx = context(l2n, pdk, halo, blackbox, cell)
    try:
        return m.RCX(ctx, m.Mode(mode), scale, 50, 0.5, tech(pdk, halo), report).extract()
    finally:
        if report == 'rep.rdb' and os.path.exists(report):
            os.unlink(report)     # (KLayout would rename it to a backup next time)


def tables(res):
    """the three tables of all cells, summed per key"""
    ov, sw, fr = {}, {}, {}
    for c in res.cell_extraction_results.values():
        for k, l in c.overlap_table.items():
            kk = (k.layer_top, k.net_top, k.layer_bot, k.net_bot)
            ov[kk] = ov.get(kk, 0.0) + sum(e.cap_value for e in l)
        for k, l in c.sidewall_table.items():
            kk = (k.layer, k.net1, k.net2)
            sw[kk] = sw.get(kk, 0.0) + sum(e.cap_value for e in l)
        for k, l in c.sideoverlap_table.items():
            kk = (k.layer_inside, k.net_inside, k.layer_outside, k.net_outside)
            fr[kk] = fr.get(kk, 0.0) + sum(e.cap_value for e in l)
    return ov, sw, fr
