"""C07: elimination of internal nodes preserves the electrical behaviour of a resistor network."""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import core

chk = core.Check('C07', rule='every labelled graph, every kept set, every elimination order; every history of operations; '
                 'outcomes are distinct reduced networks')
T = chk.thorough
import klayout.db as kdb
core.quiet()
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
V = core.Violation

PTS = [kdb.Point(0, 0), kdb.Point(1000, 0), kdb.Point(0, 1000), kdb.Point(1000, 1000), kdb.Point(500, 300),
       kdb.Point(-700, 200)]
# conductances of the edges: pairwise distinct, no accidental symmetries
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


# two scales: similar conductances, and conductances spread over many decades
SPREAD = [F(2), F(3, 1000), F(5000), F(7, 10), F(11, 100000), F(1300), F(17, 10), F(19, 10000), F(23, 100), F(29000),
          F(31, 1000), F(37), F(41, 100000), F(43, 10), F(4700)]
SCALE = [0]


def g_of(k):
    return SPREAD[k] if SCALE[0] else F(PRIMES[k], 8)


# ------------------------------------------------------------- the reference: exact Kirchhoff
def ref_elim(net, x):
    """net: {frozenset(i,j): Fraction}; star-mesh elimination of x = Schur complement of the admittance matrix"""
    star = [(next(iter(e - {x})), g) for e, g in net.items() if x in e]
    rest = {e: g for e, g in net.items() if x not in e}
    s = sum(g for _, g in star)
    for (a, ga), (b, gb) in itertools.combinations(star, 2):
        e = frozenset((a, b))
        rest[e] = rest.get(e, F(0)) + ga * gb / s
    return rest


def schur(n, net, keep):
    """second, independent formulation: Gaussian elimination of the nodal admittance matrix"""
    A = [[F(0)] * n for _ in range(n)]
    for e, g in net.items():
        i, j = sorted(e)
        A[i][i] += g
        A[j][j] += g
        A[i][j] -= g
        A[j][i] -= g
    for x in range(n):
        if x in keep or A[x][x] == 0:
            continue
        p = A[x][x]
        rows = [r for r in range(n) if r != x and A[r][x] != 0]
        for r in rows:
            f = A[r][x] / p
            for c in range(n):
                A[r][c] -= f * A[x][c]
        for c in range(n):
            A[x][c] = F(0)
            A[c][x] = F(0)
    return {frozenset((i, j)): -A[i][j] for i in keep for j in keep if i < j and A[i][j] != 0}


# ------------------------------------------------------------- reading the network under test
def read(nw):
    """{frozenset(point index): conductance} through the public attributes of the network"""
    d = {}
    for (a, b), c in nw.s.items():
        if a == b:
            raise V(f"a resistor from node {a} to itself")
        if (b, a) not in nw.s or nw.s[(b, a)].cond != c.cond:
            raise V(f"{a}->{b} and {b}->{a} differ")
        pa, pb = nw.location(a), nw.location(b)
        if pa is None or pb is None:
            raise V(f"resistor {a}-{b} at a node that no longer exists")
        d[frozenset((PTS.index(pa), PTS.index(pb)))] = c.cond
    return d


def same(what, nw, exp):
    if nw.check() != 0:
        raise V(f"{what}: check() finds {nw.check()} errors\n{nw}")
    got = read(nw)
    for e in set(got) | set(exp):
        if e not in got or e not in exp or not core.close(got[e], float(exp[e]), 1e-9, 0):
            raise V(f"{what}: conductance {sorted(e)} is {got.get(e)}, expected {exp.get(e)}\n{nw}")
    for a in nw.node_to_s:
        star = sorted((o, c.cond) for c, o in nw.node_to_s[a])
        exps = sorted((o, c.cond) for (x, o), c in nw.s.items() if x == a)
        if star != exps:
            raise V(f"{what}: star of node {a} is {star}, resistors are {exps}")
    return tuple(sorted((tuple(sorted(e)), round(g, 9)) for e, g in got.items()))


def printed(nw, exp):
    """to_string lists every resistor exactly once, with its conductance or resistance"""
    for res in (False, True):
        got = {}
        sect = False
        for line in nw.to_string(res).split('\n'):
            if not line.startswith(' '):
                sect = line.startswith('Resistors') or line.startswith('Conductors')
                continue
            if sect:
                ab, v = line.strip().split(': ')
                a, b = ab.split(',')
                e = frozenset((int(a[1:]), int(b[1:])))
                if e in got:
                    raise V(f"{e} printed twice\n{nw.to_string(res)}")
                got[e] = float(v)
        for e in set(got) | set(exp):
            w = exp.get(e)
            if w is not None and res:
                w = 1 / w
            if e not in got or w is None or not core.close(got[e], float(w), 1e-5, 0):
                raise V(f"printed {sorted(e)}: {got.get(e)}, expected {w}\n{nw.to_string(res)}")


def make(n, edges, order=None, one=None):
    """edges: [(i, j, Fraction)] in insertion order"""
    nw = ResistorNetwork()
    ids = {}
    for i in (order or range(n)):
        ids[i] = nw.node_id(PTS[i])
        nw.name(ids[i], f"n{i}")
    for i, j, g in edges:
        nw.add_cond(ids[i], ids[j], one or Conductance(float(g)))
    return nw, ids


def as_net(edges):
    d = {}
    for i, j, g in edges:
        e = frozenset((i, j))
        d[e] = d.get(e, F(0)) + g
    return d


def edges_of(n, mask):
    return [(i, j, g_of(k)) for k, (i, j) in enumerate(itertools.combinations(range(n), 2)) if mask >> k & 1]


# ------------------------------------------------------------- stage elim: all graphs, all orders
def body_elim(case):
    n, mask, rot, SCALE[0] = case
    edges = edges_of(n, mask)
    order = list(range(n))[rot:] + list(range(n))[:rot]
    edges = edges[rot:] + edges[:rot] if rot else edges
    edges = [(j, i, g) if (k + rot) % 2 else (i, j, g) for k, (i, j, g) in enumerate(edges)]
    net = as_net(edges)
    runs = 0
    last = None
    for k in range(n + 1):
        for keep in itertools.combinations(range(n), k):
            exp = schur(n, net, keep)
            drop = [x for x in range(n) if x not in keep]
            for perm in itertools.permutations(drop):
                nw, ids = make(n, edges, order)
                for x in perm:
                    nw.eliminate_node(ids[x])
                    if any(x in e for e in net) and nw.has_node(PTS[x]):
                        raise V(f"node {x} still exists after eliminate_node")
                last = same(f"keep {keep}, order {perm}", nw, exp)
                runs += 1
            nw, ids = make(n, edges, order)
            for x in keep:
                nw.mark_precious(ids[x])
            nw.eliminate_all()
            same(f"eliminate_all, keep {keep}", nw, exp)
            for x in keep:
                if nw.location(ids[x]) != PTS[x] or not nw.has_node(PTS[x]) or nw.node_id(PTS[x]) != ids[x]:
                    raise V(f"eliminate_all lost precious node {x}")
                if nw.node_names[ids[x]] != f"n{x}":
                    raise V(f"eliminate_all renamed precious node {x}")
            for x in drop:
                if nw.has_node(PTS[x]) and any(x in e for e in net):
                    raise V(f"eliminate_all, keep {keep}: internal node {x} is left\n{nw}")
            printed(nw, exp)
            runs += 1
    return {'runs': runs}, last


NMAX = 6 if T else 5


def cases_elim():
    for n in range(1, NMAX + 1):
        ne = n * (n - 1) // 2
        for mask in range(1 << ne):
            for rot in ((0, 1, 2) if n <= 4 or (T and n == 5) else (0,)):
                yield n, mask, rot, 0
                if n <= 5:
                    yield n, mask, rot, 1


# (n = 6: all 2^15 graphs; kept sets and orders as for smaller n)
chk.explore(cases_elim(), body_elim, 'elim', chunk=16)


# ------------------------------------------------------------- stage stars: nodes with many neighbours
def body_star(case):
    n, inner, kind, order = case
    SCALE[0] = 0
    PTS.extend(kdb.Point(-7 - i, 5 * i) for i in range(len(PTS), n))
    g = lambda k: F(2 + 7 * k % 23, 8)
    edges = [(c, i, g(c + i)) for c in range(inner) for i in range(inner, n)]
    if kind != 'star':
        edges += [(c, d, g(c * d)) for c in range(inner) for d in range(c)]
    if kind == 'full':
        edges += [(i, j, g(i * j)) for i in range(inner, n) for j in range(i) if j >= inner]
    net = as_net(edges)
    exp = schur(n, net, tuple(range(inner, n)))
    nw, ids = make(n, edges)
    if order is None:
        for x in range(inner, n):
            nw.mark_precious(ids[x])
        nw.eliminate_all()
    else:
        for x in order:
            nw.eliminate_node(ids[x])
    out = same(f"{inner} inner nodes, {n - inner} neighbours, {kind}, order {order}", nw, exp)
    if any(nw.has_node(PTS[x]) for x in range(inner)):
        raise V(f"{case}: an inner node is left")
    printed(nw, exp)
    return {'edges': len(edges)}, out


def cases_star():
    for k in range(1, 41 if T else 25):
        for inner in (1, 2, 3):
            for kind in ('star', 'mesh', 'full'):
                for order in (None, *itertools.permutations(range(inner))):
                    yield inner + k, inner, kind, order


chk.explore(cases_star(), body_star, 'stars', chunk=8)


# ------------------------------------------------------------- stage history: all operation sequences
def body_hist(case):
    SCALE[0] = 0
    n, mask, ops = case[:3]
    edges = edges_of(n, mask)
    one = None
    if len(case) > 3:                       # (all resistors of one value are given as one Conductance object)
        one = Conductance(1.0)
        edges = [(i, j, F(1)) for i, j, _ in edges]
    nw, ids = make(n, edges, one=one)
    net = as_net(edges)
    k = 0

    def nid(i):
        return nw.node_id(PTS[i])           # (recreates the node if it was removed)

    out = None
    for step, op in enumerate(ops):
        if op[0] == 'add':
            _, i, j = op
            g = F(1, 3) + step if one is None else F(1)
            nw.add_cond(nid(i), nid(j), Conductance(float(g)) if one is None else one)
            e = frozenset((i, j))
            net[e] = net.get(e, F(0)) + g
        elif op[0] == 'elim':
            nw.eliminate_node(nid(op[1]))
            net = ref_elim(net, op[1])
        elif op[0] == 'remove':
            nw.remove_node(nid(op[1]))
            net = {e: g for e, g in net.items() if op[1] not in e}
        else:
            _, i, j = op
            nw.connect_nodes(nid(i), nid(j))
            new = {}
            for e, g in net.items():
                f = frozenset(i if x == j else x for x in e)
                if len(f) == 2:
                    new[f] = new.get(f, F(0)) + g
            net = new
        out = same(f"step {step} {op}", nw, net)
    printed_ok = all(nw.node_names.get(a, '').startswith('n') for ab in nw.s for a in ab)
    if printed_ok:
        printed(nw, net)
    return {'steps': len(ops)}, out


def ops_of(n):
    o = []
    for i, j in itertools.permutations(range(n), 2):
        o.append(('add', i, j))
        o.append(('connect', i, j))
    for i in range(n):
        o.append(('elim', i))
        o.append(('remove', i))
    return o


def cases_hist():
    for n, masks, depth in ((3, range(8), 4 if T else 3), (4, range(64), 3 if T else 2)):
        o = ops_of(n)
        for mask in masks:
            for seq in itertools.product(o, repeat=depth):
                yield n, mask, seq
                if any(x[0] == 'add' for x in seq):
                    yield n, mask, seq, 'one object'


chk.explore(cases_hist(), body_hist, 'history', chunk=500)


# ------------------------------------------------------------- stage conductance: serial / parallel
def body_cond(case):
    a, b = (F(x) for x in case)
    ca, cb = Conductance(float(a)), Conductance(float(b))
    p, s = ca.parallel(cb), ca.serial(cb)
    if (ca.cond, cb.cond) != (float(a), float(b)):
        raise V(f"parallel/serial changed their operands: {ca.cond} {cb.cond}")
    ep, es = a + b, (a * b / (a + b) if a and b else F(0))
    c1, c2 = ca.copy(), ca.copy()
    c1.add_parallel(cb)
    c2.add_serial(cb)
    for what, got, exp in (('parallel', p, ep), ('serial', s, es), ('add_parallel', c1, ep), ('add_serial', c2, es)):
        if not core.close(got.cond, float(exp)):
            raise V(f"{what} of {a}, {b} is {got.cond}, expected {exp}")
    if a and not core.close(float(ca.res()), float(1 / a), 1e-5):
        raise V(f"res() of {a} is {ca.res()}")
    return {}, (p.cond, s.cond)


vals = ['0', '1/1000', '1/3', '1/2', '1', '3/2', '2', '7', '1000']
chk.explore(itertools.product(vals, vals), body_cond, 'conductance')


# ------------------------------------------------------------- stage skinny: obtuse triangles
def body_skinny(case):
    pts = [kdb.Point(x * 120, y * 120) for x, y in case]
    p = kdb.Polygon(pts)
    if p.area() == 0:
        return {}, None
    out = ResistorNetwork.expand_skinny_tris(p)
    l = sorted((pts[i] - pts[j]).sq_length() for i, j in ((0, 1), (1, 2), (2, 0)))
    obtuse = l[0] + l[1] < l[2]
    if len(out) != (2 if obtuse else 1):
        raise V(f"{p} (obtuse: {obtuse}) becomes {out}")
    tol = 2.0 * l[2] ** 0.5 + 4      # rounding of the foot point to the database unit
    if abs(sum(q.area() for q in out) - p.area()) > tol:
        raise V(f"{p} of area {p.area()} becomes {out} of area {sum(q.area() for q in out)}")
    r, q = kdb.Region(p), kdb.Region()
    for x in out:
        q.insert(x)
    if (r ^ q).area() > tol:
        raise V(f"{p} becomes {out}: not the same region")
    if len(out) == 2:
        if (kdb.Region(out[0]) & kdb.Region(out[1])).area() > tol:
            raise V(f"{p} becomes overlapping {out}")
        for x in out:
            pp = list(x.each_point_hull())
            if len(pp) == 3:
                m = sorted((pp[i] - pp[j]).sq_length() for i, j in ((0, 1), (1, 2), (2, 0)))
                if m[0] + m[1] < m[2] * 0.97 and m[0] > 3000:
                    raise V(f"{p} becomes {out}: {x} is still obtuse")
    return {'obtuse': obtuse}, tuple(sorted(q.area() for q in out))


G = 6 if T else 5
grid = list(itertools.product(range(G), range(G)))
chk.explore((c for c in itertools.product(grid, repeat=3) if len(set(c)) == 3 and c[0] == min(c)), body_skinny, 'skinny', chunk=400)

chk.finish()
