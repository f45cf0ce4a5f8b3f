"""Resistor networks of the code under test as graphs: effective resistances between ports."""
from __future__ import annotations

from . import core


class Net:
    def __init__(self, nw):
        self.name = nw.net_name
        self.nodes = {}
        for n in nw.nodes:
            if n.node_id in self.nodes:
                raise core.Violation(f"net {nw.net_name}: node id {n.node_id} twice")
            k = n.location.kind
            p = n.location.point
            b = n.location.box
            # 1 = point (pin), else box
            loc = ('p', p.x, p.y) if n.location.HasField('point') else \
                ('b', b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y)
            self.nodes[n.node_id] = (n.node_name, n.net_name, n.layer_name, loc)
        self.els = []
        for e in nw.elements:
            a, b, r = e.node_a.node_id, e.node_b.node_id, e.resistance
            if a not in self.nodes or b not in self.nodes:
                raise core.Violation(f"net {nw.net_name}: resistor between unknown nodes {a}, {b}")
            if not r >= 0 or r == float('inf'):
                raise core.Violation(f"net {nw.net_name}: resistance {r}")
            self.els.append((a, b, r))

    def pins(self):
        return {(n[2], n[3][1], n[3][2]): i for i, n in self.nodes.items() if n[3][0] == 'p'}

    def components(self):
        return components(self.nodes, self.els)

    def reff(self, a, b):
        return reff(self.nodes, self.els, a, b)


def components(nodes, els):
    p = {n: n for n in nodes}

    def find(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x
    for a, b, _ in els:
        p[find(a)] = find(b)
    out = {}
    for n in nodes:
        out.setdefault(find(n), set()).add(n)
    return list(out.values())


def reff(nodes, els, a, b):
    """effective resistance, None if not connected; resistors of 0 Ohm merge their nodes"""
    p = {n: n for n in nodes}

    def find(x):
        while p[x] != x:
            x = p[x]
        return x
    for x, y, r in els:
        if r <= 1e-12:
            p[find(x)] = find(y)
    a, b = find(a), find(b)
    if a == b:
        return 0.0
    g = {}
    for x, y, r in els:
        if r > 1e-12:
            x, y = find(x), find(y)
            if x != y:
                g.setdefault(x, {})
                g.setdefault(y, {})
                g[x][y] = g[x].get(y, 0.0) + 1.0 / r
                g[y][x] = g[y].get(x, 0.0) + 1.0 / r
    # star-mesh elimination of everything but a and b
    for n in sorted(g, key=lambda n: len(g[n])):
        if n in (a, b):
            continue
        nb = g.pop(n)
        s = sum(nb.values())
        ks = list(nb)
        for k in ks:
            del g[k][n]
        for i, k in enumerate(ks):
            for l in ks[i + 1:]:
                c = nb[k] * nb[l] / s
                g[k][l] = g[k].get(l, 0.0) + c
                g[l][k] = g[l].get(k, 0.0) + c
    c = g.get(a, {}).get(b, 0.0)
    return 1.0 / c if c > 0 else None


def nets(res):
    out = []
    for c in res.cell_extraction_results.values():
        for nw in c.r_extraction_result.networks:
            out.append(Net(nw))
    return out
