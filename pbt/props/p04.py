"""P04: PRegionsExact is optimal, by brute force over all partitions."""
import numpy as np

import core
import formats
import gen
import ref

ID = "P04"
RULE = ("A case is a feasible p-regions problem with up to 7 areas, a metric and one of the three "
        "formulations; the returned partition must be valid and its objective equal to the minimum over "
        "all partitions into p contiguous regions (enumerated). Non-trivial: there are at least two such "
        "partitions with different objective values.")
ASSUMPTIONS = ["the CBC solver shipped with PuLP is correct up to its tolerances"]
METRICS = ["euclidean", "manhattan", "chebyshev_fn", "chebyshev_scalar", "cityblock", "l2"]
KINDS = ["small", "small", "ints", "dyadic", "two", "const", "float", "big"]


def g_case(method, max_n):
    def g(s):
        prob = gen.p_problem(s, 1, max_n, start=False, value_kinds=KINDS, disconnected=20)
        return {"prob": prob, "method": method, "metric": s.choice(METRICS),
                "attr1d": s.chance(30)}
    return g


def spellings(s):
    c = g_case(s.choice(["flow", "order", "tree"]), 4)(s)
    c["method"] = s.choice([str.upper, str.capitalize, str.lower])(c["method"])
    return c


def optimum(prob, metric):
    """(best, is there anything worse?) over all feasible partitions."""
    g = prob["graph"]
    d = ref.pair_matrix(metric, prob["attr"])
    lo = hi = None
    for parts in ref.all_partitions(g["n"], core.nbrs(g), prob["p"]):
        v = sum(d[i][j] for s in parts for i in s for j in s if i < j)
        lo = v if lo is None else min(lo, v)
        hi = v if hi is None else max(hi, v)
    return lo, hi


def reported(est, method, solver, metric, p):
    """The attributes after a fit tell what was requested."""
    if not isinstance(est.method, str) or est.method.lower() != method.lower():
        core.fail("method is %r after a fit with %r", est.method, method)
    if est.n_regions != p:
        core.fail("n_regions is %r after a fit with %r", est.n_regions, p)
    if not isinstance(est.solver, str) or est.solver.lower() != solver.lower():
        core.fail("solver is %r after a fit with %r", est.solver, solver)
    a, b = np.array([[1.0, 2.0]]), np.array([[4.0, 9.0]])
    m = float(np.asarray(est.metric(a, b)).reshape(-1)[0])
    if abs(m - ref.dist(metric, [1, 2], [4, 9])) > 1e-9:
        core.fail("metric is %r after a fit with %r", est.metric, metric)


def check(case, ctx):
    from region.p_regions.exact import PRegionsExact
    prob = case["prob"]
    g = prob["graph"]
    attr = core.attr_array(prob["attr"])
    if case["attr1d"] and attr.shape[1] == 1:
        attr = attr.reshape(-1)
    est = PRegionsExact()
    metric = core.metric_arg(case["metric"])
    ctx.call("PRegionsExact(%s)" % case["method"], est.fit, core.adj_matrix(g), attr,
             prob["p"], method=case["method"], solver="cbc", metric=metric)
    labels = core.labels_of(est, g["n"])
    bad = ref.partition_problem(labels, g["n"], core.nbrs(g), prob["p"])
    if bad:
        core.fail("%s: %s", case["method"], bad)
    lo, hi = optimum(prob, case["metric"])
    got = ref.objective({"kind": "pairwise", "metric": case["metric"]}, labels, prob["attr"])
    tol = 1e-5 * max(1.0, abs(lo))
    if got > lo + tol:
        core.fail("%s: objective %r of %r, but the optimum is %r", case["method"], got, labels, lo)
    reported(est, case["method"], "cbc", case["metric"], prob["p"])
    ctx.nontrivial = hi > lo + tol
    if g["comps"] > 1:
        ctx.tag("disconnected")
    if prob["p"] in (1, g["n"], g["n"] - 1):
        ctx.tag("p=%s" % {1: "1", g["n"]: "n", g["n"] - 1: "n-1"}[prob["p"]])
    if g["n"] - max(len(v) for v in ref.regions(labels).values()) == prob["p"] - 1 and 1 < prob["p"] < g["n"]:
        ctx.tag("one big region")


def g_entry(s):
    """Any entry point, with every optional argument given or left out."""
    m = formats.lattice(s, 3, 5)
    n = len(m["cells"])
    inp = formats.input_spec(s, n)
    g = formats.graph_of(m, inp["contiguity"])
    attr = gen.attrs(s, n, 3, ["small", "ints", "dyadic"])
    lo = g["comps"]
    p = s.int(min(n, lo + 1), max(lo + 1, n - 1)) if lo + 1 < n else s.int(lo, n)
    if inp["contiguity"] == "rook" and s.bool():
        inp["contiguity"] = None
    return {"map": m, "input": inp, "attr": attr, "p": p,
            "method": s.choice(["flow", "order", "tree", None]),
            "metric": s.choice(["euclidean", "manhattan", "chebyshev_fn", "sqeuclidean_fn", None]),
            "solver": s.choice(["cbc", "CBC", None])}


def check_entry(case, ctx):
    from region.p_regions.exact import PRegionsExact
    inp = formats.make_input(case["map"], case["input"])
    attr, p = case["attr"], case["p"]
    kw = {k: case[k] for k in ("method", "solver") if case[k]}
    if case["metric"]:
        kw["metric"] = core.metric_arg(case["metric"])
    if inp.fmt == "gdf" and case["input"]["contiguity"]:
        kw["contiguity"] = case["input"]["contiguity"]
    est = PRegionsExact()
    what = "PRegionsExact from %s with %r" % (inp.fmt, sorted(kw))
    ctx.call(what, inp.fit, est, inp.table("attr", attr), p, **kw)
    labels = inp.labels(est)
    bad = ref.partition_problem(labels, inp.n, inp.nb, p)
    if bad:
        core.fail("%s: %s", what, bad)
    metric = case["metric"] or "euclidean"
    lo, hi = optimum({"graph": inp.graph, "attr": attr, "p": p}, metric)
    got = ref.objective({"kind": "pairwise", "metric": metric}, labels, attr)
    tol = 1e-5 * max(1.0, abs(lo))
    if got > lo + tol:
        core.fail("%s: objective %r of %r, but the optimum is %r", what, got, labels, lo)
    reported(est, case["method"] or "flow", case["solver"] or "cbc", metric, p)
    ctx.nontrivial = hi > lo + tol
    ctx.tag(inp.fmt, str(case["metric"]), str(case["method"]))


PARTS = [
    {"name": "flow", "gen": g_case("flow", 6), "check": core.confirm(check), "quick": 560, "thorough": 8000},
    {"name": "order", "gen": g_case("order", 6), "check": core.confirm(check), "quick": 560, "thorough": 8000},
    {"name": "tree", "gen": g_case("tree", 7), "check": core.confirm(check), "quick": 720, "thorough": 10000},
    {"name": "spelling", "gen": spellings, "check": core.confirm(check), "quick": 120, "thorough": 1000},
    {"name": "entry", "gen": g_entry, "check": core.confirm(check_entry), "quick": 1000, "thorough": 12000},
]
