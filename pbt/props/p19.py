"""P19: converters keep every value attached to its area."""
import numpy as np

import core
import formats
import gen
import ref

ID = "P19"
RULE = ("dicts: tables keyed by names of any kind in any insertion order, scalar / list / tuple / array values, "
        "through the dict, graph and frame converters and back; adjacency: neighbour dicts, W objects and "
        "graphs; polygons: lattices with missing cells, optionally with cells split into triangles, in any row "
        "order and with any index, against shared edges and corners; lookup: region lists, counts and moves. "
        "Non-trivial: the documented order of the areas differs from the insertion order (dicts), some but not "
        "all pairs are neighbours (adjacency, polygons), at least two regions (lookup).")
ASSUMPTIONS = ["values are finite; area names are sortable"]


def names(kind, ids):
    if kind == "int":
        return list(ids)
    if kind == "neg":
        return [i - 50 for i in ids]
    if kind == "str":
        return ["a%d" % i for i in ids]
    return [("t%d" % (i % 3), i) for i in ids]


def g_table(s):
    n = s.int(1, 8)
    return {"kind": s.choice(["int", "neg", "str", "tuple"]), "ids": s.sample(0, 99, n), "order": s.perm(n),
            "order2": s.perm(n), "rows": gen.attrs(s, n, 3, ["small", "ints", "dyadic", "float", "big"]),
            "value": s.choice(["scalar", "list", "tuple", "array"]), "subset": [s.int(0, n - 1) for _ in range(s.int(1, 5))],
            "cols": s.sample(0, 2, s.int(1, 3)), "pick": s.int(0, 99)}


def same(what, got, want, ndim=2):
    got = np.asarray(got)
    if got.ndim != ndim:
        core.fail("%s has %d dimensions", what, got.ndim)
    if got.astype(float).tolist() != [[float(x) for x in r] for r in want] if ndim == 2 \
            else got.astype(float).tolist() != [float(x) for x in want]:
        core.fail("%s is %r instead of %r", what, got.tolist(), want)


def check_table(c, ctx):
    import geopandas
    import networkx as nx
    import pandas as pd
    from shapely.geometry import Point
    from region import util
    nm = names(c["kind"], c["ids"])
    n, rows = len(nm), c["rows"]
    k = len(rows[0])
    scalar = c["value"] == "scalar" and k == 1
    conv = {"scalar": list, "list": list, "tuple": tuple, "array": np.array}[c["value"]]
    dct = {nm[i]: rows[i][0] if scalar else conv(rows[i]) for i in c["order"]}
    asc = sorted(range(n), key=lambda i: nm[i])
    # dict -> array
    same("array_from_dict_values", ctx.call("array_from_dict_values", util.array_from_dict_values, dct),
         [rows[i] for i in asc])
    keys = [nm[i] for i in c["order2"]]
    same("array_from_dict_values(sorted_keys)", ctx.call(
        "array_from_dict_values", util.array_from_dict_values, dct, keys), [rows[i] for i in c["order2"]])
    sub = [i % n for i in c["subset"]]
    same("array_from_dict_values(subset)", ctx.call(
        "array_from_dict_values", util.array_from_dict_values, dct, iter([nm[i] for i in sub])),
        [rows[i] for i in sub])
    same("array_from_dict_values(flat_output)", ctx.call(
        "array_from_dict_values", util.array_from_dict_values, dct, keys, flat_output=True),
        [x for i in c["order2"] for x in rows[i]], 1)
    ints = {a: int(rows[i][0]) for i, a in enumerate(nm)}
    got = ctx.call("array_from_dict_values", util.array_from_dict_values, ints, keys, flat_output=True,
                   dtype=np.int32)
    if got.dtype != np.int32:
        core.fail("dtype %r instead of int32", got.dtype)
    same("array_from_dict_values(dtype)", got, [int(rows[i][0]) for i in c["order2"]], 1)
    if n > 1 and not scalar:        # a value too many or too few belongs to no column
        odd = dict(dct)
        a, b = nm[c["pick"] % n], nm[(c["pick"] + 1) % n]
        odd[a] = conv(list(odd[a]) + [7])
        if c["pick"] % 2 and k > 1:
            odd[b] = conv(list(odd[b])[1:])
        ctx.rejects("values of different lengths", lambda: util.array_from_dict_values(odd), (ValueError,))
    # graph attributes
    g = nx.Graph()
    g.add_nodes_from(nm[i] for i in c["order2"])
    cols = ["c%d" % e for e in range(k)]
    for e in range(k):
        nx.set_node_attributes(g, {nm[i]: rows[i][e] for i in c["order"]}, cols[e])
    pick = [e for e in c["cols"] if e < k] or [0]
    arg = cols[pick[0]] if len(pick) == 1 and c["pick"] % 2 else [cols[e] for e in pick]
    if c["pick"] % 5 == 0 and not isinstance(arg, str):
        arg = tuple(arg)
    want = {nm[i]: [rows[i][e] for e in pick] for i in range(n)}
    got = ctx.call("dict_from_graph_attr", util.dict_from_graph_attr, g, arg)
    if {a: list(v) for a, v in got.items()} != want:
        core.fail("dict_from_graph_attr is %r instead of %r", got, want)
    got = ctx.call("dict_from_graph_attr", util.dict_from_graph_attr, g, arg, array_values=True)
    if {a: v.tolist() for a, v in got.items()} != want or not all(isinstance(v, np.ndarray) for v in got.values()):
        core.fail("dict_from_graph_attr(array_values) is %r instead of %r", got, want)
    if util.dict_from_graph_attr(g, dct) is not dct and util.dict_from_graph_attr(g, dct) != dct:
        core.fail("dict_from_graph_attr of a dict is not that dict")
    node_rows = [[rows[i][e] for e in pick] for i in c["order2"]]
    same("array_from_graph", ctx.call("array_from_graph", util.array_from_graph, g, arg), node_rows)
    same("array_from_graph_or_dict", ctx.call(
        "array_from_graph_or_dict", util.array_from_graph_or_dict, g, arg), node_rows)
    same("array_from_graph_or_dict(dict)", ctx.call(
        "array_from_graph_or_dict", util.array_from_graph_or_dict, g, dct), [rows[i] for i in c["order2"]])
    # frames
    data = {cols[e]: [rows[i][e] for i in range(n)] for e in reversed(range(k))}
    index = [str(x) if c["kind"] == "tuple" else x for x in nm]
    df = pd.DataFrame(data, index=index)
    if c["pick"] % 3 == 0:
        df = geopandas.GeoDataFrame(df, geometry=[Point(i, 0) for i in range(n)], index=index)
    same("array_from_df_col", ctx.call("array_from_df_col", util.array_from_df_col, df, arg),
         [[rows[i][e] for e in pick] for i in range(n)])
    got = ctx.call("dataframe_to_dict", util.dataframe_to_dict, df, list(arg) if not isinstance(arg, str) else arg)
    if set(got) != set(index):
        core.fail("dataframe_to_dict has keys %r instead of %r", sorted(got), sorted(index))
    for i in range(n):
        v = np.asarray(got[index[i]]).reshape(-1).tolist()
        if v != [rows[i][e] for e in pick] or isinstance(arg, str) and np.ndim(got[index[i]]) != 0:
            core.fail("dataframe_to_dict gives %r for area %r instead of %r", got[index[i]], index[i],
                      [rows[i][e] for e in pick])
    # there and back again
    same("frame -> dict -> array", util.array_from_dict_values(
        util.dataframe_to_dict(df, [cols[e] for e in pick]), [index[i] for i in c["order"]]),
        [[rows[i][e] for e in pick] for i in c["order"]])
    ctx.nontrivial = c["order"] != asc and c["order2"] != asc
    ctx.tag(c["kind"], c["value"])


def g_adj(s):
    g = gen.graph(s, 1, 9, 3)
    n = g["n"]
    return {"graph": g, "kind": s.choice(["int", "neg", "str", "tuple"]), "ids": s.sample(0, 99, n),
            "order": s.perm(n), "container": s.choice(["set", "list", "tuple", "dict"]),
            "drop": [[s.int(0, 99), s.int(0, 99)] for _ in range(s.int(0, 2))] if s.chance(20) else [],
            "transform": s.choice([None, "r", "b", "v"]), "weighted": s.bool()}


def check_adj(c, ctx):
    import networkx as nx
    from libpysal import weights
    from region import util
    g = c["graph"]
    n = g["n"]
    nb = [set(x) for x in core.nbrs(g)]
    nm = names(c["kind"], c["ids"])
    for i, j in c["drop"]:          # neighbour relations need not be symmetric here
        if nb[i % n]:
            nb[i % n].discard(sorted(nb[i % n])[j % len(nb[i % n])])
    kind = {"set": set, "list": list, "tuple": tuple, "dict": dict.fromkeys}[c["container"]]
    dct = {nm[i]: kind([nm[j] for j in sorted(nb[i])]) for i in c["order"]}
    asc = sorted(range(n), key=lambda i: nm[i])

    def matrix(what, m, order):
        got = np.asarray(m.todense())
        want = [[j in nb[i] for j in order] for i in order]
        if got.shape != (n, n) or (got != 0).tolist() != want:
            core.fail("%s is\n%r instead of\n%r", what, (got != 0).astype(int).tolist(),
                      np.array(want).astype(int).tolist())
        if (got[got != 0] <= 0).any():
            core.fail("%s has negative entries", what)
    matrix("scipy_sparse_matrix_from_dict", ctx.call(
        "scipy_sparse_matrix_from_dict", util.scipy_sparse_matrix_from_dict, dct), asc)
    order = c["order"]
    wts = {nm[i]: [[1, 1e-7, 3e5][(i + j) % 3] for j in sorted(nb[i])] for i in range(n)} if c["weighted"] else None
    w = weights.W({nm[i]: [nm[j] for j in sorted(nb[i])] for i in range(n)}, wts,
                  id_order=[nm[i] for i in order], silence_warnings=True)
    if c["transform"] and any(nb):
        w.transform = c["transform"]
    matrix("scipy_sparse_matrix_from_w", ctx.call(
        "scipy_sparse_matrix_from_w", util.scipy_sparse_matrix_from_w, w), order)
    ctx.nontrivial = 0 < sum(map(len, nb)) < n * (n - 1)
    ctx.tag(c["kind"], "asymmetric" if c["drop"] else "symmetric")
    if c["drop"]:
        return
    # a graph built from the dict describes the same map
    graph = nx.Graph()
    graph.add_nodes_from(dct)
    graph.add_edges_from((a, b) for a, v in dct.items() for b in v)
    matrix("to_scipy_sparse_matrix", nx.to_scipy_sparse_matrix(graph), order)


def g_poly(s):
    m = formats.lattice(s, 1, 9, names=("int", "str"))
    return {"map": m, "split": [s.int(0, 2) for _ in m["cells"]] if s.bool() else [0] * len(m["cells"]),
            "contiguity": s.choice(["rook", "queen", "Rook", "QUEEN", "queen"]), "index": s.choice(["range", "names", "desc"]),
            "shift": s.int(0, 3)}


def shapes_of(c):
    """Polygons as rings of integer corners; cells may be split into two
    triangles (1: along one diagonal, 2: along the other)."""
    res = []
    for (r, k), how in zip(c["map"]["cells"], c["split"]):
        a, b, d, e = (k, r), (k + 1, r), (k + 1, r + 1), (k, r + 1)
        if how == 0:
            res.append([a, b, d, e])
        elif how == 1:
            res += [[a, b, d], [a, d, e]]
        else:
            res += [[a, b, e], [b, d, e]]
    # start every ring somewhere else
    return [p[c["shift"] % len(p):] + p[:c["shift"] % len(p)] for p in res]


def sides(ring):
    return {frozenset((p, q)) for p, q in zip(ring, ring[1:] + ring[:1])}


def check_poly(c, ctx):
    import geopandas
    from shapely.geometry import Polygon
    from region import util
    rings = shapes_of(c)
    n = len(rings)
    index = {"range": list(range(n)), "names": ["x%d" % ((7 * i + 3) % 100) for i in range(n)],
             "desc": list(range(n, 0, -1))}[c["index"]]
    gdf = geopandas.GeoDataFrame({"v": list(range(n))}, geometry=[Polygon(p) for p in rings], index=index)
    w = ctx.call("w_from_gdf", util.w_from_gdf, gdf, c["contiguity"])
    got = np.asarray(util.scipy_sparse_matrix_from_w(w).todense()) != 0
    queen = c["contiguity"].lower() == "queen"
    want = [[i != j and bool(set(rings[i]) & set(rings[j]) if queen else sides(rings[i]) & sides(rings[j]))
             for j in range(n)] for i in range(n)]
    if got.tolist() != want:
        core.fail("%s contiguity of %r is %r instead of %r", c["contiguity"], rings,
                  got.astype(int).tolist(), np.array(want).astype(int).tolist())
    ctx.nontrivial = 0 < int(np.sum(want)) < n * (n - 1)
    ctx.tag(c["contiguity"].lower(), "triangles" if any(c["split"]) else "squares")


def g_lookup(s):
    n = s.int(1, 10)
    labels = [s.int(0, 4) for _ in range(n)]
    return {"labels": labels, "order": s.perm(n), "container": s.choice(["set", "list", "tuple", "frozenset"]),
            "el": s.int(0, 11), "move": [s.int(0, n - 1), s.int(0, 9)], "float": s.bool()}


def check_lookup(c, ctx):
    from region import util
    n = len(c["labels"])
    canon = ref.canon(c["labels"])
    kind = {"set": set, "list": list, "tuple": tuple, "frozenset": frozenset}[c["container"]]
    reg = [[i for i in c["order"] if canon[i] == r] for r in range(len(set(canon)))]
    lst = [kind(x) for x in reg]
    got = ctx.call("array_from_region_list", util.array_from_region_list, lst)
    if np.asarray(got).tolist() != list(canon):
        core.fail("array_from_region_list(%r) is %r", lst, np.asarray(got).tolist())
    el = c["el"]
    if el < n:
        if ctx.call("find_sublist_containing", util.find_sublist_containing, el, lst, index=True) != canon[el]:
            core.fail("index of %d in %r is wrong", el, lst)
        if util.find_sublist_containing(el, lst) != lst[canon[el]]:
            core.fail("sublist of %d in %r is wrong", el, lst)
    else:
        ctx.rejects("find_sublist_containing of a missing element",
                    lambda: util.find_sublist_containing(el, lst), (LookupError,))
    arr = np.array(c["labels"], dtype=float if c["float"] else int)
    for x in range(6):
        if ctx.call("count", util.count, arr, x) != c["labels"].count(x):
            core.fail("count(%r, %d) is %r", c["labels"], x, util.count(arr, x))
    if bool(util.all_elements_equal(arr)) != (len(set(c["labels"])) == 1):
        core.fail("all_elements_equal(%r) is wrong", c["labels"])
    a, r = c["move"]
    ctx.call("make_move", util.make_move, a, r, arr)
    if arr.tolist() != ref.moved(c["labels"], a, r):
        core.fail("make_move(%d, %d) of %r gives %r", a, r, c["labels"], arr.tolist())
    ctx.nontrivial = len(reg) > 1


def g_wide(s):
    return {"n": s.choice([300, 130, 257, 1000, 40000, 70000]), "seed": s.int(0, 10 ** 6),
            "k": s.choice([200, 1, 128, 300, 35000])}


def check_wide(c, ctx):
    """Numbers of areas and regions beyond one or two bytes."""
    import random
    from region import util
    rnd = random.Random(c["seed"])
    n, k = c["n"], min(c["k"], c["n"])
    owner = list(range(k)) + [rnd.randrange(k) for _ in range(n - k)]
    rnd.shuffle(owner)
    lst = [set() for _ in range(k)]
    for i, r in enumerate(owner):
        lst[r].add(i)
    got = np.asarray(ctx.call("array_from_region_list", util.array_from_region_list, lst))
    if got.tolist() != owner:
        core.fail("array_from_region_list of %d regions and %d areas is wrong", k, n)
    rows = [[rnd.randrange(10 ** 6)] for _ in range(n)]
    order = list(range(n))
    rnd.shuffle(order)
    same("array_from_dict_values", ctx.call("array_from_dict_values", util.array_from_dict_values,
                                            {i: rows[i] for i in order}), rows)
    if n <= 1000:
        nb = {i: sorted({(i - 1) % n, (i + 1) % n, (i + n // 2) % n, (i - n // 2) % n}) for i in order}
        got = ctx.call("scipy_sparse_matrix_from_dict", util.scipy_sparse_matrix_from_dict, nb)
        pairs = sorted(zip(*(x.tolist() for x in got.nonzero())))
        if pairs != sorted((i, j) for i in nb for j in nb[i]):
            core.fail("scipy_sparse_matrix_from_dict of %d areas is wrong", n)
        arr = np.array(owner)
        for r in range(0, k, 7):
            if ctx.call("count", util.count, arr, r) != owner.count(r):
                core.fail("count of %d is wrong", r)
    ctx.nontrivial = k > 1
    ctx.tag("n=%d" % n)


PARTS = [
    {"name": "tables", "gen": g_table, "check": check_table, "quick": 2400, "thorough": 60000},
    {"name": "adjacency", "gen": g_adj, "check": check_adj, "quick": 4000, "thorough": 80000},
    {"name": "polygons", "gen": g_poly, "check": check_poly, "quick": 800, "thorough": 20000},
    {"name": "lookup", "gen": g_lookup, "check": check_lookup, "quick": 4000, "thorough": 80000},
    {"name": "wide", "gen": g_wide, "check": check_wide, "quick": 48, "thorough": 400},
]
