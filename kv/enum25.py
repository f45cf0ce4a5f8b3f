"""Alphabets shared by the layout enumerations."""
from . import pylvs

MIM = {
    pylvs.SKY: [('met3_ncap', 'met3_cap', 'capm', 'met2_con', 'met4_ncap'),
                ('met4_ncap', 'met4_cap', 'capm2', 'met3_ncap', 'met5_con')],
    pylvs.IHP: [('metal5_n_cap', 'metal5_cap', 'cmim_top', 'metal4_con', 'topmetal1_con')],
}


def metals(pdk):
    return [m for m, _, _ in pylvs.LEVELS[pdk]]


def partitions(n):
    """all set partitions of n items as net name tuples (restricted growth strings)"""
    def rec(prefix, mx):
        if len(prefix) == n:
            yield tuple('ABCDEFGH'[i] for i in prefix)
            return
        for i in range(mx + 2):
            yield from rec(prefix + [i], max(mx, i))
    yield from rec([0], 0)


def legal(rects):
    """no shorts between different nets on the same layer and no corner-only contacts"""
    for i, a in enumerate(rects):
        for b in rects[:i]:
            if a[0] != b[0]:
                continue
            dx = min(a[4], b[4]) - max(a[2], b[2])
            dy = min(a[5], b[5]) - max(a[3], b[3])
            if dx >= 0 and dy >= 0 and (a[1] != b[1] or (dx == 0 and dy == 0)):
                return False
    return True


TRICKY = [('a', 'A'), ('net1', 'net10'), ('A,B', 'A'), ('VDD', 'vdd'), ('x.y', 'x'), ('0', '00'), (None, None), ('A', None), ('$1', 'A'),
          ('B', 'A'), ('vsubs', 'A'), ('A', 'A|B'), ('sky130_gnd!', 'gnd')]
