"""P15: random initial solutions are feasible."""
import random

import numpy as np

import core
import gen
import ref

ID = "P15"
RULE = ("A case is a map (any number of components, also with weights on the adjacency), a feasible number of "
        "regions and a state of the random number generator; initial: generate_initial_sol is consumed and "
        "judged as a partition; distribute: the split of the regions among the components alone. "
        "Non-trivial: more regions than components and fewer than areas.")
ASSUMPTIONS = ["adjacency is symmetric with positive entries"]


def weighted(s, n_edges):
    return [s.choice([1, 1, 2, .5, .25, 7]) for _ in range(n_edges)] if s.chance(40) else None


def g_small(s):
    g = gen.graph(s, 1, 12, max_comp=5, disconnected=50)
    p = s.int(g["comps"], g["n"])
    return {"graph": g, "p": p, "seed": s.int(0, 10 ** 6), "dtype": s.choice(["float", "int"]),
            "weights": weighted(s, len(g["edges"]))}


def g_large(s):
    t = gen.TraceSource(random.Random(s.int(0, 2 ** 31)))
    g = gen.graph(t, 20, 80, max_comp=8, disconnected=60)
    n, lo = g["n"], g["comps"]
    p = t.choice([lo, lo + 1, (lo + n) // 2, n - 1, n, t.int(lo, n)])
    return {"graph": g, "p": max(lo, min(n, p)), "seed": t.int(0, 10 ** 6), "dtype": "float",
            "weights": weighted(t, len(g["edges"]))}


def g_wide(s):
    return {"wide": gen.wide_spec(s, max_n=500, max_comp=8), "seed": s.int(0, 10 ** 6)}


def check_wide(c, ctx):
    g, p, _ = gen.wide_graph(c["wide"])
    check({"graph": g, "p": p, "seed": c["seed"], "dtype": "float", "weights": None}, ctx)


def adjacency(c):
    adj = core.adj_matrix(c["graph"], {"float": float, "int": int}[c["dtype"]])
    if c["weights"]:
        adj = adj.astype(float).tolil()
        for (i, j), w in zip(c["graph"]["edges"], c["weights"]):
            adj[i, j] = adj[j, i] = w
        adj = adj.tocsr()
    return adj


def check(c, ctx):
    from region.util import generate_initial_sol
    n, p = c["graph"]["n"], c["p"]
    nb = core.nbrs(c["graph"])
    comps = ref.components(range(n), nb)
    random.seed(c["seed"])
    adj = adjacency(c)
    before = adj.copy()
    out = ctx.call("generate_initial_sol", lambda: [np.array(a) for a in generate_initial_sol(adj, p)])
    if (adj != before).nnz:
        core.fail("the adjacency matrix was changed")
    if len(out) != len(comps):
        core.fail("%d arrays for %d components", len(out), len(comps))
    todo = {tuple(comp) for comp in comps}
    labels = [None] * n
    owner = {}
    for k, arr in enumerate(out):
        if arr.shape != (n,):
            core.fail("array of shape %r for %d areas", arr.shape, n)
        inside = tuple(i for i in range(n) if arr[i] != -1)
        if inside not in todo:
            core.fail("array %r does not cover exactly one component not seen before", arr.tolist())
        todo.discard(inside)
        for i in inside:
            v = arr[i].item()
            if v < 0 or v != int(v):
                core.fail("region %r of area %d", v, i)
            if owner.setdefault(v, k) != k:
                core.fail("region %r occurs in two components", v)
            labels[i] = v
    bad = ref.partition_problem(labels, n, nb, p)
    if bad:
        core.fail("generate_initial_sol: %s", bad)
    ctx.nontrivial = len(comps) < p < n
    ctx.tag("comps=%d" % min(len(comps), 4), "weighted" if c["weights"] else "binary")


def g_dist(s):
    k = s.int(1, 5)
    n = s.int(k, 14)
    labels = list(range(k)) + [s.int(0, k - 1) for _ in range(n - k)]
    perm = s.perm(n)
    return {"labels": [labels[i] for i in perm], "p": s.int(k, n), "seed": s.int(0, 10 ** 6),
            "array": s.bool()}


def check_dist(c, ctx):
    from region.util import distribute_regions_among_components
    random.seed(c["seed"])
    arg = np.array(c["labels"], dtype=np.int32) if c["array"] else list(c["labels"])
    res = ctx.call("distribute_regions_among_components", distribute_regions_among_components, arg, c["p"])
    if list(arg) != c["labels"]:
        core.fail("the component labels were changed")
    got = {int(k): int(v) for k, v in res.items()}
    size = {k: c["labels"].count(k) for k in c["labels"]}
    if set(got) != set(size):
        core.fail("components %r instead of %r", sorted(got), sorted(size))
    if sum(got.values()) != c["p"]:
        core.fail("%r distributes %d regions instead of %d", got, sum(got.values()), c["p"])
    for k in size:
        if not 1 <= got[k] <= size[k]:
            core.fail("component %d with %d areas gets %d regions", k, size[k], got[k])
    ctx.nontrivial = 1 < len(size) < c["p"] < len(c["labels"])


PARTS = [
    {"name": "initial", "gen": g_small, "check": check, "quick": 6000, "thorough": 150000},
    {"name": "initial_large", "gen": g_large, "check": check, "quick": 200, "thorough": 5000},
    {"name": "initial_wide", "gen": g_wide, "check": check_wide, "quick": 64, "thorough": 800},
    {"name": "distribute", "gen": g_dist, "check": check_dist, "quick": 6000, "thorough": 100000},
]
