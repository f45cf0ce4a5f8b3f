"""Shared body for the 2.5D capacitance checks: a case is
(pdk, dbu, scale, halo or None, ((computed layer, net, x0, y0, x1, y1), ...)) in dbu."""
from __future__ import annotations

import functools
import itertools

from . import core, pylvs, rcx, ref25


@functools.lru_cache(None)
def reftech(pdk):
    return ref25.Tech(pylvs.tech_json(pdk))


def lvs(pdk, dbu, rects, join=True):
    kdb = rcx.mods().kdb
    sh, lab = {}, []
    lv = {m for m, _, _ in pylvs.LEVELS[pdk]}
    for (l, n, x0, y0, x1, y1) in rects:
        sh.setdefault(l, []).append(kdb.Box(x0, y0, x1, y1))
        if n is not None and l in lv:
            lab.append((l, n, (x0 + x1) // 2, (y0 + y1) // 2))
    return pylvs.make(pdk, sh, lab, dbu=dbu, join=join)


def canonical(pdk, rects):
    t = reftech(pdk)
    out = {}
    for (l, n, x0, y0, x1, y1) in rects:
        out.setdefault(t.canon_of_computed[l], {}).setdefault(n, []).append((x0, y0, x1, y1))
    return out


def run(case):
    pdk, dbu, scale, halo, rects = case
    l2n = lvs(pdk, dbu, rects)
    return rcx.extract(l2n, pdk, 'CC', scale, halo)


def fmt(d):
    return '{' + ', '.join(f"{k}: {v}" for k, v in sorted(d.items(), key=str)) + '}'


def cmp_exact(what, exp, got, rel=1e-6, ab=1e-9):
    for k in set(exp) | set(got):
        e, g = exp.get(k, 0.0), got.get(k, 0.0)
        if abs(e - g) > max(ab, rel * max(abs(e), abs(g))):
            raise core.Violation(f"{what} of {k}: extracted {g} fF, expected {e} fF\n"
                                 f"all extracted: {fmt(got)}\nall expected:  {fmt(exp)}")


def cmp_range(what, exp, got, rel=1e-6, ab=1e-9):
    for k in set(exp) | set(got):
        lo, hi = exp.get(k, (0.0, 0.0))
        g = got.get(k, 0.0)
        if g < lo * (1 - rel) - ab or g > hi * (1 + rel) + ab:
            raise core.Violation(f"{what} of {k}: extracted {g} fF, expected {lo} .. {hi} fF\n"
                                 f"all extracted: {fmt(got)}\nall expected:  {fmt(exp)}")


def check(case, which):
    """which: subset of 'osf' (overlap, sidewall, fringe)"""
    pdk, dbu, scale, halo, rects = case
    res = run(case)
    ov, sw, fr = rcx.tables(res)
    if any(r[1] is None for r in rects):
        # unlabelled shapes: any one-to-one assignment of their names is fine
        rects = tuple(r if r[1] is not None else (r[0], f"?{i}") + r[2:] for i, r in enumerate(rects))
        un = sorted({n for d in (ov, sw, fr) for k in d for n in (k[1], k[-1])} - {r[1] for r in rects} - {'VSUBS'}, key=str)
        holes = [r[1] for r in rects if r[1].startswith('?')]
        if len(un) > len(holes):
            raise core.Violation(f"{len(holes)} unlabelled shapes, but nets {un}")
        err = None
        for perm in itertools.permutations(holes, len(un)):
            m = dict(zip(un, perm))
            f = lambda x: m.get(x, x)
            tabs = ({(a, f(n), b, f(o)): v for (a, n, b, o), v in ov.items()},
                    {(l, f(n), f(o)): v for (l, n, o), v in sw.items()},
                    {(a, f(n), b, f(o)): v for (a, n, b, o), v in fr.items()})
            try:
                return compare(case[:4] + (rects,), which, *tabs)
            except core.Violation as e:
                err = err or e
        raise err
    return compare(case, which, ov, sw, fr)


def compare(case, which, ov, sw, fr):
    pdk, dbu, scale, halo, rects = case
    ref = ref25.Ref(reftech(pdk), canonical(pdk, rects), dbu, scale, halo_um=halo)
    cnt, sig = {}, []
    if 'o' in which:
        exp = ref.overlaps()
        cmp_exact('overlap capacitance', exp, ov)
        cnt['overlap_pairs'] = len(exp)
        sig += sorted((k, round(v, 6)) for k, v in exp.items())
    if 's' in which or 'f' in which:
        es, ef = ref.lateral()
        if 's' in which:
            cmp_exact('sidewall capacitance', es, sw)
            cnt['sidewall_pairs'] = len(es)
            sig += sorted((k, round(v, 6)) for k, v in es.items())
        if 'f' in which:
            cmp_range('side overlap (fringe) capacitance', ef, fr)
            cnt['fringe_pairs'] = len(ef)
            sig += sorted((k, round(v[1], 6)) for k, v in ef.items())
    return cnt, hash(tuple(sig))
