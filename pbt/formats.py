"""Problems on lattices, in every input format of the library.

A map is {"cells": [[r, c], ...] (in row order), "names": [...], "kind"}; area
i is cells[i], its name names[i].  Everything is derived from the case only."""
import random

import numpy as np

import core
import gen
import ref

FORMATS = ["matrix", "w", "gdf", "dict", "nx"]


def lattice(s, min_n=1, max_n=9, names=("int", "str", "tuple")):
    """Lattice with missing cells, in any row order, with any names."""
    rows, cols = s.int(1, 3), s.int(1, 4)
    while rows * cols < min_n:
        rows += 1
        cols += 1
    cells = [[r, c] for r in range(rows) for c in range(cols)]
    for _ in range(max(0, len(cells) - max_n)):
        cells.pop(s.int(0, len(cells) - 1))
    for _ in range(s.int(0, 2)):
        if len(cells) > min_n:
            cells.pop(s.int(0, len(cells) - 1))
    order = s.perm(len(cells)) if s.chance(70) else range(len(cells))
    cells = [cells[i] for i in order]
    n = len(cells)
    kind = s.choice(names)
    if kind == "int":
        how = s.int(0, 2)
        ids = list(range(n)) if how == 0 else s.perm(n) if how == 1 else \
            [x - 20 for x in s.sample(0, 99, n)]
    else:
        ids = s.perm(n) if s.bool() else s.sample(0, 99, n)
    return {"cells": cells, "ids": ids, "kind": kind}


def names_of(m):
    if m["kind"] == "int":
        return list(m["ids"])
    if m["kind"] == "str":
        return ["area%d" % i for i in m["ids"]]      # "area10" < "area9"
    return [("t%d" % (i % 3), i) for i in m["ids"]]


def edges_of(m, contiguity="rook"):
    cells = m["cells"]
    res = []
    for i in range(len(cells)):
        for j in range(i + 1, len(cells)):
            dr, dc = abs(cells[i][0] - cells[j][0]), abs(cells[i][1] - cells[j][1])
            if dr + dc == 1 or (contiguity == "queen" and max(dr, dc) == 1):
                res.append([i, j])
    return res


def graph_of(m, contiguity="rook"):
    edges = edges_of(m, contiguity)
    n = len(m["cells"])
    return {"n": n, "edges": edges,
            "comps": len(ref.components(range(n), ref.nbrs_of(n, edges)))}


def polygons(m):
    from shapely.geometry import Polygon
    return [Polygon([(c, r), (c + 1, r), (c + 1, r + 1), (c, r + 1)]) for r, c in m["cells"]]


def rowval(row, scalar):
    return row[0] if scalar and len(row) == 1 else np.array(row)


class Input:
    """One problem in one format: positional arguments for fit, plus how to
    read labels_.  tables: {name: rows} of per-area values (in area order)."""

    def __init__(self, m, fmt, orders, contiguity="rook", style=0, w_transform=None,
                 graph=None, enc=0):
        """orders: three permutations for the insertion orders of dicts and
        graphs.  style: bits choosing scalar/array values and names/dicts.
        enc: representation of the contiguity (see core.adj_matrix)."""
        self.m, self.fmt, self.style = m, fmt, style
        self.names = names_of(m)
        n = self.n = len(self.names)
        self.graph = graph or graph_of(m, contiguity)
        self.nb = core.nbrs(self.graph)
        self.orders = orders
        if fmt == "dict":
            self.out = sorted(range(n), key=lambda i: self.names[i])
        elif fmt == "nx":
            self.out = list(orders[0])
        else:
            self.out = list(range(n))
        rnd = random.Random(7 * n + len(self.graph["edges"]))
        if fmt == "matrix":
            self.problem = core.adj_matrix(dict(self.graph, enc=enc))
        elif fmt == "w":
            from libpysal import weights
            nbd = {self.names[i]: [self.names[j] for j in sorted(self.nb[i])] for i in range(n)}
            wts = {k: [rnd.choice([1, 2, .5, 1e-7, 3e5]) if enc & 2 else 1 for _ in v] for k, v in nbd.items()}
            self.problem = weights.W(nbd, wts, id_order=list(self.names), silence_warnings=True)
            if w_transform and self.graph["edges"]:
                self.problem.transform = w_transform
        elif fmt == "gdf":
            import geopandas
            self.problem = geopandas.GeoDataFrame(
                {"other": list(range(n))}, geometry=polygons(m),
                index=list(range(n)) if style & 4 else
                [str(x) if m["kind"] == "tuple" else x for x in self.names])
        elif fmt == "dict":
            kind = [set, list, tuple][style % 3]
            self.problem = {self.names[i]: kind(self.names[j] for j in sorted(self.nb[i]))
                            for i in orders[0]}
        elif fmt == "nx":
            import networkx as nx
            self.problem = nx.Graph()
            self.problem.add_nodes_from(self.names[i] for i in orders[0])
            es = [(self.names[i], self.names[j]) for i, j in self.graph["edges"]]
            if style & 8:
                es = [(b, a) for a, b in reversed(es)]
            self.problem.add_edges_from(es)
            if enc & 2:
                for e in es:
                    self.problem.edges[e]["weight"] = rnd.choice([0, 1, 2, .5])

    def table(self, what, rows):
        """Per-area values (list of rows) as an argument of fit."""
        n = self.n
        flat = bool(self.style & 1)
        if self.fmt in ("matrix", "w"):
            arr = np.array(rows)
            return arr.reshape(-1) if flat and arr.shape[1] == 1 else arr
        cols = len(rows[0])
        colnames = ["%s%d" % (what, e) for e in range(cols)]
        if self.fmt == "gdf":
            # columns in another order than requested
            for e in reversed(range(cols)):
                self.problem[colnames[e]] = [row[e] for row in rows]
            return colnames[0] if cols == 1 and flat else colnames
        if self.fmt == "nx" and not self.style & 2:
            import networkx as nx
            for e in range(cols):
                nx.set_node_attributes(
                    self.problem, {self.names[i]: rows[i][e] for i in self.orders[1]}, colnames[e])
            return colnames[0] if cols == 1 and flat else colnames
        return {self.names[i]: rowval(rows[i], flat) for i in self.orders[2]}

    def start(self, labels):
        """Starting labels as an argument of fit."""
        if labels is None:
            return None
        if self.fmt == "dict" or (self.fmt == "nx" and self.style & 2):
            return {self.names[i]: labels[i] for i in self.orders[1]}
        if self.fmt == "nx":
            import networkx as nx
            nx.set_node_attributes(
                self.problem, {self.names[i]: labels[i] for i in self.orders[2]}, "start")
            return "start"
        return np.array(labels)

    def labels(self, est, what="labels_"):
        """labels_ in area order."""
        lab = core.labels_of(est, self.n, what)
        res = [None] * self.n
        for pos, area in enumerate(self.out):
            res[area] = lab[pos]
        return res

    def fit(self, est, *args, **kwargs):
        name = {"matrix": "fit_from_scipy_sparse_matrix", "w": "fit_from_w",
                "gdf": "fit_from_geodataframe", "dict": "fit_from_dict",
                "nx": "fit_from_networkx"}[self.fmt]
        if self.fmt == "matrix" and hasattr(est, "fit") and self.style & 16:
            name = "fit"
        return getattr(est, name)(self.problem, *args, **kwargs)


def input_spec(s, n):
    return {"fmt": s.choice(FORMATS), "orders": [s.perm(n), s.perm(n), s.perm(n)],
            "style": s.int(0, 31), "contiguity": "queen" if s.chance(25) else "rook",
            "enc": s.int(1, 31) if s.chance(30) else 0}


def make_input(m, spec, **kw):
    return Input(m, spec["fmt"], spec["orders"], spec["contiguity"], spec["style"],
                 enc=spec.get("enc", 0), **kw)
