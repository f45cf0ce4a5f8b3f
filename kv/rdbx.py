"""Independent reader of KLayout marker databases (XML, plain or gzipped)."""
from __future__ import annotations

import gzip
import xml.etree.ElementTree as ET

import klayout.db as kdb

from . import core


def parse_path(s):
    """category path -> tuple of names: components separated by '.', each a plain word or quoted with backslash escapes (octal bytes)"""
    res, i, n = [], 0, len(s)
    while True:
        b = bytearray()
        if i < n and s[i] in '\'"':
            q = s[i]
            i += 1
            while i < n and s[i] != q:
                if s[i] == '\\':
                    i += 1
                    if s[i] in '01234567':
                        j = i
                        while j < n and j < i + 3 and s[j] in '01234567':
                            j += 1
                        b.append(int(s[i:j], 8) & 255)
                        i = j
                        continue
                    b += {'n': '\n', 'r': '\r', 't': '\t'}.get(s[i], s[i]).encode()
                else:
                    b += s[i].encode()
                i += 1
            i += 1
        else:
            while i < n and s[i] != '.':
                b += s[i].encode()
                i += 1
        res.append(b.decode('utf-8', 'replace'))
        if i >= n:
            return tuple(res)
        if s[i] != '.':
            raise core.HarnessError(f"category path {s!r}")
        i += 1


class Rdb:
    def __init__(self, path):
        with open(path, 'rb') as f:
            d = f.read()
        if d[:2] == b'\x1f\x8b':
            d = gzip.decompress(d)
        try:
            root = ET.fromstring(d)
        except ET.ParseError as e:
            raise core.Violation(f"the marker database is no valid XML: {e}")
        self.top = root.findtext('top-cell')
        self.cells = [c.findtext('name') for c in root.findall('./cells/cell')]
        self.cats = []

        def walk(el, pre):
            for c in el.findall('./categories/category'):
                p = pre + (c.findtext('name') or '',)
                self.cats.append(p)
                walk(c, p)
        walk(root, ())
        self.items = []
        for it in root.findall('./items/item'):
            self.items.append((parse_path(it.findtext('category') or ''), it.findtext('cell'),
                               tuple((v.text or '') for v in it.findall('./values/value'))))

    def by(self):
        d = {}
        for p, c, v in self.items:
            d.setdefault(p, []).append((c, v))
        return d


def contours(s, dbu):
    """'(x,y;...)' or '(../..)' in um -> lists of points in database units"""
    if not (s.startswith('(') and s.endswith(')')):
        raise core.Violation(f"unreadable geometry {s!r}")
    res = []
    for c in s[1:-1].split('/'):
        pts = []
        for p in c.split(';'):
            xy = []
            for w in p.split(','):
                v = float(w) / dbu
                if abs(v - round(v)) > 1e-3:
                    raise core.Violation(f"the coordinate {w} in {s!r} is off the grid {dbu}")
                xy.append(round(v))
            pts.append(tuple(xy))
        res.append(pts)
    return res


def shapes(values, dbu):
    """values of the items of a category -> (Region, [edge (p, q)])"""
    reg, edges = kdb.Region(), []
    for vs in values:
        for v in vs:
            kind, _, g = v.partition(': ')
            if kind.startswith('[') and kind.endswith('] text'):      # property of the shape (the net)
                continue
            c = contours(g, dbu)
            if kind == 'polygon':
                p = kdb.Polygon([kdb.Point(*q) for q in c[0]])
                for h in c[1:]:
                    p.insert_hole([kdb.Point(*q) for q in h])
                reg.insert(p)
            elif kind == 'box':
                (a, b), = c
                reg.insert(kdb.Box(*a, *b))
            elif kind == 'edge':
                edges.append(tuple(c[0]))
            else:
                raise core.Violation(f"unexpected value {v!r}")
    return reg, edges
