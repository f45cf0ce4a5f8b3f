"""C12: solver logs -> capacitance matrix -> averaging -> CSV -> matrix."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core

chk = core.Check('C12', rule='every log of the grammar (solver x conductors x values x iterations x noise x unit), every truncation of a '
                 'log, every small matrix; outcomes are distinct matrices')
T = chk.thorough
core.quiet()
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
from klayout_pex.fastercap.fastercap_runner import fastercap_parse_capacitance_matrix
from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix
V = core.Violation
UNITS = {'atto': 1e-18, 'femto': 1e-15, 'pico': 1e-12, 'nano': 1e-9, 'micro': 1e-6, 'milli': 1e-3, '': 1.0}
CAL = os.path.join(core.REPO, 'testdata')

# ------------------------------------------------------------------ log grammar (modelled after the logs in testdata)
FC_HEAD = ['Running FasterCap version 6.0.7', 'Copyright 2019 FastFieldSolvers S.R.L.  http://www.fastfieldsolvers.com, All Rights Reserved', '',
           'Starting capacitance extraction with the following parameters:', 'Input file: /x/y.lst', 'Max relative error: 0.05', '']
FC_IT = ['Iteration number #%d ***************************', '***************************************',
         'Refining the geometry.. ', 'Refinement completed', 'Mesh refinement (-m): 0.5', '***************************************',
         'Computing the links.. ', 'Number of panels after refinement: 3', 'GMRES Iteration: 0 1 2 3 4', 'GMRES Iteration: 0 1 2 ']
FC_TAIL = ['Warning: capacitance matrix is not diagonally dominant due to row 3', '',
           'Weighted Frobenius norm of the difference between capacitance (auto option): 0.0166179', '', 'Solve statistics:',
           'Number of input panels: 12 of which 12 conductors and 0 dielectric', 'Total time: 0.1s', '']
FP_HEAD = ['Running fastcap 2.0 (18Sept92)', '  Input: x.lst', '  Input surfaces:', '   GROUP1', '    x_1.geo, conductor', '      title: `GEO File',
           '      outer permittivity: 1', '      number of panels: 12', '      number of conductors: 1', '  Date: Sat Nov 18', '']
FP_IT = ['Iterations: ', '0 1 2 3 ', 'FastCap iterations = %d']
FP_TAIL = ['', 'TOTAL TIME: 0.01', '', 'Total Iterations 12', '']


def fc_block(names, rows):
    return ['Capacitance matrix is:', f"Dimension {len(names)} x {len(names)}"] + \
           [f"{n}  {' '.join(r)} " for n, r in zip(names, rows)]


def fp_block(names, rows, unit):
    w = max(len(n) for n in names) + 2
    return ['', '', f"CAPACITANCE MATRIX, {unit}farads",
            ' ' * w + ''.join(str(i + 1).rjust(11) for i in range(len(names))) + ' '] + \
           [f"{n} {i + 1}".ljust(w) + ''.join(' ' + x.rjust(10) for x in r) for i, (n, r) in enumerate(zip(names, rows))]


def compose(solver, names, its, unit, noise):
    """its: list of row string tables; returns (lines, index of the line behind the last matrix row)"""
    ls = list((FC_HEAD if solver == 'fc' else FP_HEAD) if noise != 1 else [])
    end = 0
    for k, rows in enumerate(its):
        if noise != 1:
            ls += [x.replace('%d', str(k)) for x in (FC_IT if solver == 'fc' else FP_IT)]
        ls += fc_block(names, rows) if solver == 'fc' else fp_block(names, rows, unit)
        end = len(ls)
        if noise == 0:
            ls += FC_TAIL if solver == 'fc' else FP_TAIL
        elif noise == 2:
            ls += ['Warning: capacitance matrix has non-negative off-diagonals at row 2'] * 2
    return ls, end


def parse(solver, text):
    with open('log', 'w', encoding='utf-8') as f:
        f.write(text)
    return (fastercap_parse_capacitance_matrix if solver == 'fc' else fastcap_parse_capacitance_matrix)('log')


def same(what, m, names, rows, rel=1e-12):
    if list(m.conductor_names) != list(names):
        raise V(f"{what}: conductors {m.conductor_names}, expected {list(names)}")
    if m.dimension != len(names) or len(m.rows) != len(rows):
        raise V(f"{what}: {len(m.rows)} rows, dimension {m.dimension}, expected {len(rows)}")
    for i, (a, b) in enumerate(zip(m.rows, rows)):
        if len(a) != len(b) or not all(core.close(x, y, rel, 1e-40) for x, y in zip(a, b)):
            raise V(f"{what}: row {i} is {a}, expected {b}")
        if list(m[i]) != list(a):
            raise V(f"{what}: m[{i}] is {m[i]}, not {a}")


def roundtrip(m, names, rows):
    orig = [list(r) for r in m.rows]
    m.write_csv('m.csv')
    same('CSV round trip', CapacitanceMatrix.parse_csv('m.csv'), names, rows, 1e-11)
    with open('m.csv', encoding='utf-8') as f:
        ls = f.read().split('\n')
    if ls[0].split(';') != list(names) or len(ls) != len(rows) + 2 or ls[-1]:
        raise V(f"CSV {ls}")
    n = len(rows)
    a = m.averaged_off_diagonals()
    if [list(r) for r in m.rows] != orig:
        raise V('averaging changed the matrix itself')
    same('averaging', a, names, [[rows[i][j] if i == j else (rows[i][j] + rows[j][i]) / 2 for j in range(n)] for i in range(n)], 1e-11)
    if any(a[i][j] != a[j][i] for i in range(n) for j in range(n)):
        raise V(f"the averaged matrix is not symmetric: {a.rows}")
    a2 = a.averaged_off_diagonals()
    if [list(r) for r in a2.rows] != [list(r) for r in a.rows]:
        raise V('averaging twice differs from averaging once')
    a.write_csv('a.csv')
    same('CSV of the averaged matrix', CapacitanceMatrix.parse_csv('a.csv'), names, a.rows, 1e-11)


def factor(solver, unit):
    return 1e-6 if solver == 'fc' else UNITS[unit] / 1e6


def log_body(case):
    solver, names, its, unit, noise, final_nl = case
    ls, _ = compose(solver, names, its, unit, noise)
    m = parse(solver, '\n'.join(ls) + ('\n' if final_nl or True else ''))
    f = factor(solver, unit)
    rows = [[float(x) * f for x in r] for r in its[-1]]
    same('parsed matrix', m, names, rows)
    roundtrip(m, names, rows)
    return {'logs': 1}, hash((names, its[-1], unit))


VALS = ('1.16234e-09', '-6.37145e-10', '0', '5', '-3.682e+05', '54.97')


def table(n, k, vals=VALS):
    return tuple(tuple(vals[(i * n + j + k + (i * j) % 3) % len(vals)] for j in range(n)) for i in range(n))


NAMESETS = [('g1_VSUBS',), ('g1_VSUBS', 'g1_VDD'), ('g1_VSUBS', 'g2_A', 'g3_b'), ('g12_x,y', 'g1_$1', 'g2_q[0]', 'g3_a.b<1>'),
            ('g1_Dimension', 'g2_GROUP', 'g3_1'), ('g1_1', 'g1_2e5', 'g1_-3')]
FPNAMES = [('VSUBS%GROUP1',), ('VSUBS%GROUP1', 'A%GROUP2'), ('$1%GROUP2', '$1%GROUP2', '$2%GROUP3', '$2%GROUP3'), ('x,y%GROUP10', 'q[0]%GROUP2', '1%GROUP1'),
           ('VSUBS%GROUP1', 'a_very_long_conductor_name_that_breaks_the_columns%GROUP2', 'b%GROUP3')]


def logs():
    # all values in all positions (n = 1, 2), all iteration histories up to 3
    for solver, nsets, units in (('fc', NAMESETS, ('',)), ('fast', FPNAMES, tuple(UNITS))):
        for names in nsets:
            n = len(names)
            if n <= 2:
                for vals in itertools.product(VALS, repeat=n * n):
                    it = iter(vals)
                    rows = tuple(tuple(next(it) for _ in range(n)) for _ in range(n))
                    yield (solver, names, (rows,), units[len(vals[0]) % len(units)], 0, True)
            for k in range(len(VALS)):
                for its in range(1, 4):
                    for noise in (0, 1, 2):
                        for unit in units:
                            yield (solver, names, tuple(table(n, k + 5 * q) for q in range(its)), unit, noise, True)
    big = tuple(f"g1_n{i}" for i in range(12))
    yield ('fc', big, (table(12, 0), table(12, 3)), '', 0, True)
    yield ('fast', tuple(f"n{i}%GROUP{i + 1}" for i in range(12)), (table(12, 0), table(12, 3)), 'pico', 0, True)


chk.explore(logs(), log_body, stage='logs', chunk=64)


# ------------------------------------------------------------------ torn logs
def torn_body(case):
    """a log cut off anywhere is an error, unless its last matrix is complete"""
    solver, names, its, unit, noise, cut = case
    ls, end = compose(solver, names, its, unit, noise)
    text = '\n'.join(ls) + '\n'
    t = text[:cut]
    complete = len('\n'.join(ls[:end])) + 1
    try:
        m = parse(solver, t)
    except V:
        raise
    except Exception:
        if cut >= complete:
            raise V(f"a complete matrix was not parsed (log cut at {cut}, matrix ends at {complete})")
        return {'rejected': 1}, None
    f = factor(solver, unit)
    # the last block that has begun
    start = 0
    done = [k for k in range(len(its)) if cut >= len('\n'.join(compose(solver, names, its[:k + 1], unit, noise)[0][:compose(solver, names, its[:k + 1], unit, noise)[1]])) + 1]
    if not done:
        raise V(f"a matrix {m} was read from a log without any complete one: …{t[-120:]!r}")
    rows = [[float(x) * f for x in r] for r in its[done[-1]]]
    same(f"log cut at {cut} (…{t[-60:]!r})", m, names, rows)
    return {'accepted': 1}, None


def torn():
    for solver, names, unit in (('fc', ('g1_VSUBS', 'g1_A'), ''), ('fast', ('VSUBS%GROUP1', 'A%GROUP2'), 'pico')):
        for its in ((table(2, 0),), (table(2, 0), table(2, 4))):
            for noise in (0, 1, 2):
                n = len('\n'.join(compose(solver, names, its, unit, noise)[0])) + 1
                for cut in range(n + 1):
                    yield (solver, names, its, unit, noise, cut)
    for solver, names, unit in (('fc', ('g1_VSUBS',), ''), ('fast', ('VSUBS%GROUP1',), 'pico')):
        for noise in (0, 1):
            n = len('\n'.join(compose(solver, names, (table(1, 0),), unit, noise)[0])) + 1
            for cut in range(n + 1):
                yield (solver, names, (table(1, 0),), unit, noise, cut)


chk.explore(torn(), torn_body, stage='torn', chunk=256)


def nothing_body(case):
    solver, text = case
    try:
        m = parse(solver, text)
    except Exception:
        return {'rejected': 1}, None
    raise V(f"a matrix {m} was read from {text!r}")


chk.explore([(s, t) for s in ('fc', 'fast') for t in ('', '\n', 'killed\n', '\n'.join(FC_HEAD), '\n'.join(FP_HEAD),
                                                      'capacitance matrix is:\nDimension 1 x 1\n',
                                                      'Capacitance matrix is:\nDimension 2 x 2\ng1_A 1 2\n',
                                                      'Capacitance matrix is:\nDimension a x b\ng1_A 1 2\n',
                                                      'CAPACITANCE MATRIX, bogofarads\n 1 \nA%GROUP1 1 5\n',
                                                      'CAPACITANCE MATRIX, ohms\n 1 \nA%GROUP1 1 5\n',
                                                      'x\nCAPACITANCE MATRIX, picofarads\n 1 2\nA%GROUP1 1 5 6\n')],
            nothing_body, stage='nothing', parallel=False)


# ------------------------------------------------------------------ matrices
def matrix_body(case):
    names, rows = case
    m = CapacitanceMatrix(conductor_names=list(names), rows=[list(r) for r in rows])
    roundtrip(m, names, rows)
    return {'matrices': 1}, hash(case)


def mats():
    vals = (0.0, 1.5e-15, -2.25e-16, 123456.789012, -1.23456789012e-21)
    for n in (1, 2, 3):
        names = ('A', 'b,c', 'ü[1]$')[:n]
        for r in itertools.product(vals if n < 3 else vals[:3] + vals[4:] * T, repeat=n * n):
            yield (names, tuple(tuple(r[i * n:(i + 1) * n]) for i in range(n)))


chk.explore(mats(), matrix_body, stage='matrices', chunk=256)


# ------------------------------------------------------------------ calibration: the logs of the test data
def calib_body(case):
    solver, path, names, first, last = case
    m = (fastercap_parse_capacitance_matrix if solver == 'fc' else fastcap_parse_capacitance_matrix)(os.path.join(CAL, path))
    if list(m.conductor_names) != list(names) or not core.close(m[0][0], first, 1e-9, 0) or not core.close(m[-1][-1], last, 1e-9, 0):
        raise V(f"{path}: {m}")
    return {'calibrated': 1}, None


chk.explore([('fc', 'fastercap/nmos_diode2_FasterCap_Output.txt', ('g1_VSUBS', 'g1_VDD', 'g1_VSS'), 1.16234e-15, 1.42858e-15),
             ('fast', 'fastcap/cap_mim_m3_w18p9_l5p1__REDUX122_FastCap_Output.txt',
              ('$1%GROUP2', '$1%GROUP2', '$2%GROUP3', '$2%GROUP3'), 7850e-18, 3.753e-13)], calib_body, stage='calibration', parallel=False)
chk.finish()
