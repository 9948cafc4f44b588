"""P16: validators and graph helpers agree with graph theory."""
import numpy as np

import core
import gen
import ref

ID = "P16"
RULE = ("A case is a graph with a matrix type, and labels, a requested number of regions (feasible), a list of "
        "nodes in any order and nodes to leave out (subgraph), or component-wise labels (separate); every answer "
        "is compared with plain graph search. Non-trivial: several regions and at least one edge (feasible), a "
        "proper subset of at least two nodes (subgraph), at least two components (separate).")
ASSUMPTIONS = ["matrices are symmetric up to their weights"]


def matrix(c):
    return core.adj_matrix(c["graph"], {"float": float, "int": int, "bool": bool, "int32": np.int32}[c["dtype"]])


def plain(g):
    """Without areas that neighbour themselves."""
    if "enc" in g:
        g["enc"] &= 7
    return g


def base(s, max_n=10):
    return {"graph": plain(gen.graph(s, 1, max_n, max_comp=4, disconnected=40)),
            "dtype": s.choice(["float", "int", "bool", "int32"])}


def g_feas(s):
    c = base(s)
    g = c["graph"]
    n = g["n"]
    how = s.int(0, 2)
    if how == 0:
        lab = [s.int(0, 3) for _ in range(n)]
    else:
        lab = gen.partition(s, g, s.int(g["comps"], n))
        if how == 2:
            lab[s.int(0, n - 1)] = lab[s.int(0, n - 1)]
    c["labels"] = lab
    c["names"] = s.choice(["int", "neg", "float", "str"])
    k = len(set(lab))
    c["p"] = s.choice([None, k, k, k + 1, k - 1, n])
    return c


NAMES = {"int": lambda x: x, "neg": lambda x: x - 20, "float": lambda x: x / 2, "str": lambda x: "r%d" % x}


def check_feas(c, ctx):
    from region.util import assert_feasible, boolean_assert_feasible
    n = c["graph"]["n"]
    nb = core.nbrs(c["graph"])
    adj = matrix(c)
    labels = [NAMES[c["names"]](x) for x in c["labels"]]
    contiguous = ref.partition_problem(labels, n, nb) is None
    ok = contiguous and (c["p"] is None or len(set(labels)) == c["p"])
    arr = np.array(labels)
    kw = {} if c["p"] is None else {"n_regions": c["p"]}
    if ok:
        ctx.call("assert_feasible of a feasible partition", assert_feasible, arr, adj, **kw)
    else:
        ctx.rejects("assert_feasible(%r, n_regions=%r)" % (labels, c["p"]),
                    lambda: assert_feasible(arr, adj, **kw), (ValueError,))
    got = ctx.call("boolean_assert_feasible", boolean_assert_feasible, arr, adj)
    if not isinstance(got, (bool, np.bool_)) or bool(got) != contiguous:
        core.fail("boolean_assert_feasible is %r, contiguous: %r", got, contiguous)
    got = ctx.call("boolean_assert_feasible", boolean_assert_feasible, arr, adj, **kw)
    if not isinstance(got, (bool, np.bool_)) or bool(got) != ok:
        core.fail("boolean_assert_feasible with n_regions=%r is %r, feasible: %r", c["p"], got, ok)
    if arr.tolist() != labels:
        core.fail("the labels were changed")
    ctx.nontrivial = len(set(labels)) > 1 and bool(c["graph"]["edges"])
    ctx.tag("feasible" if ok else "contiguous" if contiguous else "not contiguous")


def g_sub(s):
    c = base(s)
    n = c["graph"]["n"]
    nodes = s.perm(n)[:s.int(0, n)]
    if s.bool():
        nodes.sort()
    c["nodes"] = nodes
    kind = s.choice(["none", "int", "array", "list", "slice", "empty"])
    c["kind"] = kind
    if kind == "int":
        c["wo"] = s.int(0, n - 1)
    elif kind == "slice":
        a = s.int(0, n)
        c["wo"] = [a, s.int(a, n)]
    elif kind in ("array", "list"):
        c["wo"] = s.perm(n)[:s.int(1, n)]
    else:
        c["wo"] = None
    return c


def check_sub(c, ctx):
    from region.csgraph_utils import is_connected, neighbors, sub_adj_matrix
    n = c["graph"]["n"]
    nb = core.nbrs(c["graph"])
    adj = matrix(c)
    before = adj.toarray()
    # whole graph
    if bool(ctx.call("is_connected", is_connected, adj)) != ref.connected(range(n), nb):
        core.fail("is_connected is wrong for the whole graph")
    for a in range(n):
        got = [int(x) for x in ctx.call("neighbors", neighbors, adj, a)]
        if sorted(got) != sorted(nb[a]):
            core.fail("neighbors of %d are %r instead of %r", a, got, sorted(nb[a]))
    wo = {"none": None, "int": c["wo"], "array": None, "list": c["wo"], "slice": None,
          "empty": np.array([], dtype=int)}[c["kind"]]
    out = set()
    if c["kind"] == "array":
        wo = np.array(c["wo"])
    if c["kind"] in ("array", "list"):
        out = set(c["wo"])
    if c["kind"] == "int":
        out = {c["wo"]}
    if c["kind"] == "slice":
        wo = slice(*c["wo"])
        out = set(range(*c["wo"]))
    nodes = np.array(c["nodes"], dtype=int)
    kw = {} if c["kind"] == "none" else {"wo_nodes": wo}
    sub = ctx.call("sub_adj_matrix", sub_adj_matrix, adj, nodes, **kw)
    left = [i for i in c["nodes"] if i not in out]
    got = np.asarray(sub.todense()) != 0
    want = [[j in nb[i] for j in left] for i in left]
    if sub.shape != (len(left), len(left)) or got.tolist() != want and left:
        core.fail("sub_adj_matrix(%r, wo_nodes=%r) is %r", c["nodes"], wo, got.astype(int).tolist())
    if bool(ctx.call("is_connected", is_connected, sub)) != ref.connected(left, nb):
        core.fail("is_connected of nodes %r is %r", left, not ref.connected(left, nb))
    if nodes.tolist() != c["nodes"] or (adj.toarray() != before).any():
        core.fail("the arguments were changed")
    ctx.nontrivial = 1 < len(left) < n
    ctx.tag(c["kind"], "connected" if ref.connected(left, nb) else "not connected")


def g_sep(s):
    c = base(s, 12)
    g = c["graph"]
    # labels of a valid partition, or arbitrary ones shared between components
    c["labels"] = gen.partition(s, g, s.int(g["comps"], g["n"])) if s.bool() else \
        [s.int(0, 4) for _ in range(g["n"])]
    c["float"] = s.bool()
    return c


def check_sep(c, ctx):
    from region.util import separate_components
    n = c["graph"]["n"]
    comps = ref.components(range(n), core.nbrs(c["graph"]))
    labels = np.array(c["labels"], dtype=float if c["float"] else int)
    out = ctx.call("separate_components",
                   lambda: [np.asarray(a).tolist() for a in separate_components(matrix(c), labels)])
    want = sorted([c["labels"][i] if i in comp else -1 for i in range(n)] for comp in comps)
    if sorted(out) != want:
        core.fail("separate_components yields %r instead of %r", sorted(out), want)
    if labels.tolist() != c["labels"]:
        core.fail("the labels were changed")
    ctx.nontrivial = len(comps) > 1
    ctx.tag("comps=%d" % len(comps))


def g_wide(s):
    return {"wide": gen.wide_spec(s), "how": s.int(0, 3), "pick": s.int(0, 10 ** 6),
            "dtype": s.choice(["float", "int", "bool", "int32"])}


def check_wide(c, ctx):
    """The other parts on maps with hundreds of areas and regions."""
    g, p, t = gen.wide_graph(c["wide"])
    n = g["n"]
    g = plain(g)
    lab = gen.partition(t, g, p, any_names=False)
    if c["how"] == 1:
        lab[c["pick"] % n] = lab[c["pick"] // n % n]
    case = {"graph": g, "dtype": c["dtype"], "labels": lab, "names": "int", "float": False,
            "p": len(set(lab)) + (c["how"] == 2)}
    (check_sep if c["how"] == 3 else check_feas)(case, ctx)
    if c["how"] == 3:
        nodes = t.perm(n)[:t.int(1, n)]
        check_sub({"graph": g, "dtype": c["dtype"], "nodes": nodes, "kind": "list",
                   "wo": [t.int(0, n - 1)]}, ctx)


PARTS = [
    {"name": "feasible", "gen": g_feas, "check": check_feas, "quick": 6000, "thorough": 150000},
    {"name": "subgraph", "gen": g_sub, "check": check_sub, "quick": 6000, "thorough": 150000},
    {"name": "separate", "gen": g_sep, "check": check_sep, "quick": 4000, "thorough": 80000},
    {"name": "wide", "gen": g_wide, "check": check_wide, "quick": 80, "thorough": 1000},
]
