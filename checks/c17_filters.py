"""C17: choice filters (--diel) select exactly the documented set."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core, pylvs

chk = core.Check('C17', rule='every token sequence up to the bound over the token alphabet x all names; every filter x both technology '
                 'files; outcomes are distinct selections')
T = chk.thorough
core.quiet()
from klayout_pex.util.multiple_choice import MultipleChoicePattern
from klayout_pex.tech_info import TechInfo
V = core.Violation


def oracle(tokens):
    """-> None (unspecified), 'reject', or a predicate"""
    t = [x.strip().lower() for x in tokens]
    al, no = 'all' in t, 'none' in t
    inc = {x[1:] for x in t if x[:1] == '+'}
    exc = {x[1:] for x in t if x[:1] == '-'}
    if (al and no) or (no and exc) or (al and inc):
        return 'reject'
    if al:
        return lambda n: n.lower() not in exc
    if exc or not (no or inc):
        return None
    return lambda n: n.lower() in inc


NAMES = ('nild2', 'nild20', 'NILD2', 'Nild3', 'ild', 'all', 'none', 'x', '', '+nild2')
ALPHA = ('all', 'ALL ', 'none', ' None', '+nild2', '-nild2', ' +NILD3', '-Nild3 ', '+x', '-x', '+nild20', '-ild', '+all', '-all', '-none')


def string_body(tokens):
    want = oracle(tokens)
    if want is None:
        return {'unspecified': 1}, None
    s = ','.join(tokens)
    try:
        p = MultipleChoicePattern(pattern=s)
    except Exception as e:
        if want == 'reject':
            return {'rejected': 1}, None
        raise V(f"filter {s!r} was rejected: {e!r}")
    if want == 'reject':
        raise V(f"contradictory filter {s!r} was accepted, it selects {p.filter(list(NAMES))}")
    names = [n for n in NAMES if n]
    exp = [n for n in names if want(n)]
    got = [n for n in names if p.is_included(n)]
    if got != exp:
        raise V(f"filter {s!r} includes {got}, expected {exp}")
    for order in (names, names[::-1], names + names[:3]):
        f = p.filter(list(order))
        if f != [n for n in order if want(n)]:
            raise V(f"filter {s!r} of {order} is {f}")
    return {'accepted': 1}, tuple(got)


def strings():
    for k in range(1, 6 if T else 5):
        yield from itertools.product(ALPHA, repeat=k)


chk.explore(strings(), string_body, stage='strings', chunk=1024)

# ------------------------------------------------------------------ the process stack of a technology
KIND = {'LAYER_TYPE_SIMPLE_DIELECTRIC': 'simple_dielectric_layer', 'LAYER_TYPE_CONFORMAL_DIELECTRIC': 'conformal_dielectric_layer',
        'LAYER_TYPE_SIDEWALL_DIELECTRIC': 'sidewall_dielectric_layer'}


def stack(pdk):
    return pylvs.tech_json(pdk)['process_stack']['layers']


def diels(pdk):
    return [l for l in stack(pdk) if l['layer_type'] in KIND]


def tech_body(case):
    pdk, tokens = case
    want = oracle(tokens)
    t = TechInfo.from_json(pylvs.tech_path(pdk), MultipleChoicePattern(pattern=','.join(tokens)))
    exp = [l for l in diels(pdk) if want(l['name'])]
    got = [l.name for l in t.filtered_dielectric_layers]
    if got != [l['name'] for l in exp]:
        raise V(f"{pdk}, filter {tokens}: dielectrics {got}, expected {[l['name'] for l in exp]}")
    byname = {l['name']: l[KIND[l['layer_type']]].get('dielectric_k', 0.0) for l in exp}
    if t.dielectric_by_name != byname:
        raise V(f"{pdk}, filter {tokens}: permittivities {t.dielectric_by_name}, expected {byname}")
    names = [l['name'] for l in stack(pdk)]
    n = 0
    for l in stack(pdk):
        if l['layer_type'] in KIND:
            continue
        # the first dielectric around the layer which is included (those excluded are passed over)
        cur, side = l['name'], []
        while True:
            side = [d['name'] for d in diels(pdk) if d['layer_type'] != 'LAYER_TYPE_SIMPLE_DIELECTRIC' and d[KIND[d['layer_type']]]['reference'] == cur]
            if len(side) != 1 or want(side[0]):
                break
            cur = side[0]
        if len(side) <= 1:
            r = t.sidewall_dielectric_layer(l['name'])
            if (r.name if r is not None else None) != (side[0] if side else None):
                raise V(f"{pdk}, filter {tokens}: dielectric around {l['name']} is {r and r.name}, expected {side}")
            n += 1
        if l['layer_type'] == 'LAYER_TYPE_METAL':
            # the first simple dielectric between this metal and the next one
            above = []
            for k in stack(pdk)[names.index(l['name']) + 1:]:
                if k['layer_type'] == 'LAYER_TYPE_METAL':
                    break
                if k['layer_type'] == 'LAYER_TYPE_SIMPLE_DIELECTRIC':
                    above.append(k['name'])
            r, h = t.simple_dielectric_above_metal(l['name'])
            e = above[0] if above and want(above[0]) else None
            if (r.name if r is not None else None) != e:
                raise V(f"{pdk}, filter {tokens}: dielectric above {l['name']} is {r and r.name}, expected {e}")
            n += 1
    return {'layers': n}, (pdk, tuple(got))


def tech_cases():
    for pdk in (pylvs.SKY, pylvs.IHP):
        names = sorted({l['name'] for l in diels(pdk)})
        yield (pdk, ('all',))
        yield (pdk, ('none',))
        for k in (1, 2, 3) if T else (1, 2):
            for sub in itertools.combinations(names, k):
                yield (pdk, ('all',) + tuple('-' + n for n in sub))
                yield (pdk, ('none',) + tuple('+' + n.upper() for n in sub))
                yield (pdk, tuple('+' + n for n in sub))
        yield (pdk, ('all',) + tuple('-' + n for n in names))
        yield (pdk, ('none',) + tuple('+' + n for n in names))


chk.explore(tech_cases(), tech_body, stage='technology', chunk=16)
chk.finish()
