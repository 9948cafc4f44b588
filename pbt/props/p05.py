"""P05: MaxPRegionsExact is lexicographically optimal, by brute force."""
import numpy as np

import core
import formats
import gen
import ref

ID = "P05"
RULE = ("A case is a feasible max-p-regions problem with up to 6 areas, a metric and the shape of the "
        "spatially extensive attributes and threshold; the result must be a partition into contiguous "
        "regions that all reach the threshold, with the maximum number of regions and, for it, the minimal "
        "objective (both enumerated). Non-trivial: the best number of regions is neither 1 nor n.")
ASSUMPTIONS = ["the CBC solver shipped with PuLP is correct up to its tolerances"]
METRICS = ["euclidean", "manhattan", "chebyshev_fn", "chebyshev_scalar", "l1"]
KINDS = ["small", "small", "ints", "dyadic", "two", "const", "big", "float"]


def max_p_problem(s, min_n=1, max_n=5, max_cols=2, kinds=None, negative=False, disconnected=20,
                  max_spat=2, shapes=None):
    """A feasible max-p problem.  spat: list of rows; threshold: list; form says
    how they are passed."""
    g = gen.graph(s, min_n, max_n, 3, shapes, disconnected)
    n = g["n"]
    attr = gen.attrs(s, n, max_cols, kinds)
    k = s.int(1, max_spat)
    how = s.int(0, 3)

    def one():
        if how == 0:
            return s.int(0, 9)
        if how == 1:
            return 1
        if how == 2:
            return s.choice([0, 1, 20])
        return s.int(0, 36) / 4
    spat = [[one() for _ in range(k)] for _ in range(n)]
    if negative:
        for row in spat:
            for e in range(k):
                if s.chance(25):
                    row[e] = -row[e]
    dtype = narrow(s, spat) if s.chance(20) else None
    comps = ref.components(range(n), core.nbrs(g))
    caps = [min(sum(spat[i][e] for i in c) for c in comps) for e in range(k)]
    forms = ["2d"] if k > 1 else ["2d", "1d", "2d_array"]
    form = s.choice(forms)
    threshold = []
    for e in range(k):
        top = int(caps[e])
        if top < 0:
            threshold.append(top)
            continue
        lo = 0 if s.chance(10) else min(1, top)
        threshold.append(s.int(lo, max(lo, top if s.chance(25) else max(lo, top // 2))))
    if k > 1 and s.chance(25):
        m = min(threshold)
        threshold = [m] * k
        form = "2d_scalar"
    prob = {"graph": g, "attr": attr, "spat": spat, "threshold": threshold, "form": form}
    if dtype:
        prob["dtype"] = dtype
    return prob


def narrow(s, rows):
    """Bring the rows (in place) into the range of a dtype whose range their
    sums may leave; returns the name of the dtype."""
    low = min(x for r in rows for x in r)
    dtype = s.choice(["int8", "int16", "bool", "float32"] + (["uint8", "uint16"] if low >= 0 else []))
    if dtype == "float32":
        return dtype
    top = 1 if dtype == "bool" else np.iinfo(dtype).max
    high = max(1, max(abs(int(x)) for r in rows for x in r))
    factor = 1 if s.chance(30) else max(1, top // high)
    for r in rows:
        r[:] = [min(1, abs(int(x))) if dtype == "bool" else int(x) * factor for x in r]
    return dtype


def spat_args(prob):
    """(spatially extensive attributes, threshold) as passed to region."""
    spat = np.array(prob["spat"], dtype=prob.get("dtype"))
    t = prob["threshold"]
    form = prob["form"]
    if form == "1d":
        return spat.reshape(-1), t[0]
    if form == "2d" and len(t) == 1:
        return spat, t[0]
    if form == "2d_scalar":
        return spat, t[0]
    return spat, np.array(t)


def threshold_problem(labels, prob):
    for l, areas in ref.regions(labels).items():
        for e, t in enumerate(prob["threshold"]):
            v = sum(prob["spat"][i][e] for i in areas)
            if v < t - 1e-9:
                return "region %r (areas %r) has %r of attribute %d, threshold %r" % (l, areas, v, e, t)
    return None


def g_case(s):
    prob = max_p_problem(s, max_n=5 if s.chance(80) else 6, kinds=KINDS)
    return {"prob": prob, "metric": s.choice(METRICS)}


def g_small(s):
    return {"prob": max_p_problem(s, max_n=4, kinds=KINDS, negative=s.bool(), max_cols=3),
            "metric": s.choice(METRICS)}


def check(case, ctx):
    from region.max_p_regions.exact import MaxPRegionsExact
    prob = case["prob"]
    g = prob["graph"]
    nb = core.nbrs(g)
    best = ref.best_max_p(g["n"], nb, prob["spat"], prob["threshold"],
                          ref.pair_matrix(case["metric"], prob["attr"]))
    est = MaxPRegionsExact()
    spat, threshold = spat_args(prob)

    def fit():
        est.fit(core.adj_matrix(g), core.attr_array(prob["attr"]), spat, threshold,
                solver="cbc", metric=core.metric_arg(case["metric"]))
    if best is None:        # only possible with negative attributes
        ctx.tag("infeasible")
        ctx.rejects("infeasible max-p problem", fit)
        return
    ctx.call("MaxPRegionsExact", fit)
    labels = core.labels_of(est, g["n"])
    bad = ref.partition_problem(labels, g["n"], nb, best[0]) or threshold_problem(labels, prob)
    if bad:
        core.fail("%s (best number of regions %d)", bad, best[0])
    got = ref.objective({"kind": "pairwise", "metric": case["metric"]}, labels, prob["attr"])
    if got > best[1] + 1e-5 * max(1.0, abs(best[1])):
        core.fail("objective %r of %r, but the optimum with %d regions is %r", got, labels, best[0], best[1])
    ctx.nontrivial = 1 < best[0] < g["n"]
    ctx.tag(prob["form"], "p=%d" % best[0], prob.get("dtype", ""))
    if g["comps"] > 1:
        ctx.tag("disconnected")


def g_weight(s):
    """Blocks of alike areas whose sizes do not fit the threshold: one more
    region costs nearly all of the heterogeneity there is.  The sum of all
    distances lies just below (sometimes above) a power of ten, which the
    weight of the number of regions is derived from."""
    n = 6 if s.chance(85) else s.int(4, 5)
    edges = [[i, i + 1] for i in range(n - 1)]
    if s.chance(35):
        edges.append([s.int(0, n - 3), n - 1])
    order = s.perm(n) if s.bool() else list(range(n))
    edges = sorted(sorted([order[a], order[b]]) for a, b in edges)
    cut = s.int(1, n - 1) if s.chance(50) else n // 2
    jitter = s.choice([0, 0, 1, 3])
    raw = [(0 if pos < cut else 100) + s.int(0, jitter) for pos in range(n)]
    attr = [0] * n
    for pos, a in enumerate(order):
        attr[a] = raw[pos]
    total = sum(abs(attr[i] - attr[j]) for i in range(n) for j in range(i))
    goal = s.choice([9.9, 9.5, 9, 8, 7, 99, 90, 999, 9990, 0.98, 10.5, 15])
    factor = goal / total if total else 1
    spat = [[1] for _ in range(n)] if s.chance(65) else [[s.int(1, 3)] for _ in range(n)]
    full = sum(r[0] for r in spat)
    g = {"n": n, "edges": [e for i, e in enumerate(edges) if e not in edges[:i]], "comps": 1}
    prob = {"graph": g, "attr": [[v * factor] for v in attr], "spat": spat,
            "threshold": [s.int(2, max(2, full // 2))], "form": s.choice(["1d", "2d"])}
    return {"prob": prob, "metric": s.choice(["manhattan", "euclidean"])}


def check_weight(case, ctx):
    check(case, ctx)
    prob = case["prob"]
    nb = core.nbrs(prob["graph"])
    d = ref.pair_matrix(case["metric"], prob["attr"])
    values = {}

    def reaches(areas):
        return sum(prob["spat"][i][0] for i in areas) >= prob["threshold"][0]
    for parts in ref.all_partitions(prob["graph"]["n"], nb, None, reaches):
        v = sum(d[i][j] for areas in parts for i in areas for j in areas) / 2
        values[len(parts)] = min(v, values.get(len(parts), v))
    top = max(values)
    ctx.nontrivial = top > 1 and values[top] > min(values.values()) + 1e-9
    ctx.tag("a further region costs heterogeneity" if ctx.nontrivial else "no conflict")


def g_entry(s):
    """Any entry point, with every optional argument given or left out."""
    m = formats.lattice(s, 3, 5)
    n = len(m["cells"])
    inp = formats.input_spec(s, n)
    g = formats.graph_of(m, inp["contiguity"])
    if inp["contiguity"] == "rook" and s.bool():
        inp["contiguity"] = None
    k = s.int(1, 2)
    spat = [[s.int(0, 4) for _ in range(k)] for _ in range(n)]
    comps = ref.components(range(n), core.nbrs(g))
    caps = [min(sum(spat[i][e] for i in c) for c in comps) for e in range(k)]
    return {"map": m, "input": inp, "attr": gen.attrs(s, n, 3, ["small", "ints", "dyadic", "big"]), "spat": spat,
            "threshold": [s.int(min(1, c), max(min(1, c), c // 2)) for c in caps], "array": s.bool(),
            "metric": s.choice(["euclidean", "manhattan", "chebyshev_fn", "sqeuclidean_fn", None]),
            "solver": s.choice(["cbc", "CBC", None])}


def check_entry(case, ctx):
    from region.max_p_regions.exact import MaxPRegionsExact
    inp = formats.make_input(case["map"], case["input"])
    attr, t = case["attr"], case["threshold"]
    kw = {"solver": case["solver"]} if case["solver"] else {}
    if case["metric"]:
        kw["metric"] = core.metric_arg(case["metric"])
    if inp.fmt == "gdf" and case["input"]["contiguity"]:
        kw["contiguity"] = case["input"]["contiguity"]
    est = MaxPRegionsExact()
    what = "MaxPRegionsExact from %s with %r" % (inp.fmt, sorted(kw))
    a, sp = inp.table("attr", attr), inp.table("spat", case["spat"])
    ctx.call(what, inp.fit, est, a, sp,
             t[0] if len(t) == 1 and not (case["array"] and not inp.style & 1) else np.array(t), **kw)
    labels = inp.labels(est)
    metric = case["metric"] or "euclidean"
    best = ref.best_max_p(inp.n, inp.nb, case["spat"], t, ref.pair_matrix(metric, attr))
    bad = ref.partition_problem(labels, inp.n, inp.nb, best[0]) or threshold_problem(labels, case)
    if bad:
        core.fail("%s: %s (best number of regions %d)", what, bad, best[0])
    got = ref.objective({"kind": "pairwise", "metric": metric}, labels, attr)
    if got > best[1] + 1e-5 * max(1.0, abs(best[1])):
        core.fail("%s: objective %r of %r, but the optimum with %d regions is %r", what, got, labels, best[0],
                  best[1])
    ctx.nontrivial = 1 < best[0] < inp.n
    ctx.tag(inp.fmt, str(case["metric"]))


PARTS = [
    {"name": "upto6", "gen": g_case, "check": core.confirm(check), "quick": 640, "thorough": 8000},
    {"name": "upto4", "gen": g_small, "check": core.confirm(check), "quick": 1200, "thorough": 12000},
    {"name": "weight", "gen": g_weight, "check": core.confirm(check_weight), "quick": 120, "thorough": 3000},
    {"name": "entry", "gen": g_entry, "check": core.confirm(check_entry), "quick": 1000, "thorough": 12000},
]
