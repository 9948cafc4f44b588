"""P26: results do not depend on the units of the attributes."""
import numpy as np

import core
import gen
import ref
from props import skater_common as sk
from props.p05 import max_p_problem, threshold_problem

ID = "P26"
RULE = ("A case is a problem and a change of units: all attributes multiplied by a power of two between 2**-40 and 2**40 "
        "(exact in floating point), for whole numbers also shifts, reflections, reordered and repeated columns; for "
        "max-p also a power of two for each spatially extensive attribute and its threshold. Heuristics and SKATER "
        "must return the same labels before and after (same random_state), objective functions the converted value, "
        "exact methods a partition which the enumeration of the original problem calls optimal. Non-trivial: the "
        "attributes changed, and the result has more than one region and fewer than areas (objective: the value is "
        "not zero).")
ASSUMPTIONS = ["the CBC solver shipped with PuLP is correct up to its tolerances (exact)"]
EXACT_METRICS = ["manhattan", "chebyshev_fn", "sqeuclidean_fn"]


# ------------------------------------------------------------ change of units

def exponent(s, metric=None):
    k = s.choice([-40, -33, -27, -20, -12, -5, -1, 1, 4, 10, 17, 24, 31, 40, s.int(-40, 40)])
    return k // 2 if metric == "sqeuclidean_fn" else k


def change(s, attr, metric, only_scale=False):
    """A list of steps; steps other than scaling need whole numbers."""
    whole = all(isinstance(x, int) and abs(x) <= 10 ** 6 for row in attr for x in row)
    cols = len(attr[0])
    steps = []
    if whole and not only_scale and metric in EXACT_METRICS:
        if s.chance(40):
            steps.append(["shift", [s.choice([-1, 1]) * s.choice([1, 7, 1000, 2 ** 20]) for _ in range(cols)]])
        if s.chance(25):
            steps.append(["reflect", [s.chance(60) for _ in range(cols)]])
        if cols > 1 and s.chance(40):
            steps.append(["columns", s.perm(cols)])
        if s.chance(15):
            steps.append(["twice"])
    if not steps or s.chance(70):
        steps.append(["scale", exponent(s, metric)])
    return steps


def converted(attr, steps, metric):
    """(the attributes in other units, factor of the dissimilarities)"""
    arr = np.array(attr, dtype=float)
    factor = 1.0
    for step in steps:
        if step[0] == "shift":
            arr = arr + np.array(step[1], dtype=float)
        elif step[0] == "reflect":
            arr = arr * np.where(step[1], -1.0, 1.0)
        elif step[0] == "columns":
            arr = arr[:, step[1]].copy()
        elif step[0] == "twice":
            arr = np.hstack([arr, arr])
            factor *= 1 if metric == "chebyshev_fn" else 2
        else:
            arr = arr * 2.0 ** step[1]
            factor *= 4.0 ** step[1] if metric == "sqeuclidean_fn" else 2.0 ** step[1]
    return arr, factor


def tags(ctx, steps):
    for step in steps:
        if step[0] == "scale":
            ctx.tag("tiny" if step[1] < -20 else "huge" if step[1] > 20 else "scale")
        else:
            ctx.tag(step[0])


# ----------------------------------------------------------------- heuristics

def scalable(s):
    """An objective function and its metric which scale exactly."""
    if s.chance(70):
        return {"kind": "pairwise", "metric": s.choice(EXACT_METRICS + ["manhattan", "euclidean", "cityblock"])}
    return {"kind": "center", "metric": s.choice(["manhattan", "euclidean"]), "center": s.choice(["mean", "median"]),
            "reduction": s.choice(["sum", "max", "mean"])}


def g_heuristic(s):
    spec = gen.heuristic(s)
    obj = scalable(s)
    if spec["algo"] == "sa":
        obj = dict(obj, reduction="sum", center="mean") if obj["kind"] == "center" else obj
        small = s.chance(40)
        prob = gen.p_problem(s, 2, 4 if small else 8, value_kinds=None if small else ["big", "float"])
        spec["init_temperature"] = s.choice([.01, 1, 10, 1000, 10 ** 5])
        spec["max_iterations"] = min(spec["max_iterations"], 3)
    else:
        prob = gen.p_problem(s, 3, 10)
    return {"prob": prob, "spec": spec, "obj": obj,
            "steps": change(s, prob["attr"], obj["metric"], obj["kind"] == "center")}


def run(spec, prob, obj, attr):
    est = core.make_heuristic(spec)
    start = None if prob["start"] is None else core.labels_array(prob["start"])
    est.fit_from_scipy_sparse_matrix(core.adj_matrix(prob["graph"]), attr, prob["p"], initial_labels=start,
                                     objective_func=core.make_objective(obj), **core.fit_kwargs(spec))
    return core.labels_of(est, prob["graph"]["n"])


def check_heuristic(c, ctx):
    prob, obj, spec = c["prob"], c["obj"], c["spec"]
    arr, factor = converted(prob["attr"], c["steps"], obj["metric"])
    before = ctx.call(spec["algo"], run, spec, prob, obj, np.array(prob["attr"], dtype=float))
    if spec["algo"] == "sa":        # the temperature has the unit of the objective
        spec = dict(spec, init_temperature=spec["init_temperature"] * factor)
    after = ctx.call("%s in other units" % spec["algo"], run, spec, prob, obj, arr)
    if before != after:
        core.fail("%s: labels %r, but %r after %r of the attributes", spec["algo"], before, after, c["steps"])
    ctx.nontrivial = 1 < len(set(before)) < len(before) and len(set(map(tuple, prob["attr"]))) > 1
    ctx.tag(spec["algo"])
    tags(ctx, c["steps"])


# ---------------------------------------------------------- objective functions

def g_objective(s):
    g = gen.graph(s, 2, 9)
    attr = gen.attrs(s, g["n"], 3)
    obj = scalable(s)
    labels = gen.partition(s, g, s.int(g["comps"], g["n"]))
    return {"graph": g, "attr": attr, "obj": obj, "labels": labels,
            "steps": change(s, attr, obj["metric"], obj["kind"] == "center")}


def check_objective(c, ctx):
    arr, factor = converted(c["attr"], c["steps"], c["obj"]["metric"])
    labels = np.array(c["labels"])
    base = np.array(c["attr"], dtype=float)
    f = core.make_objective(c["obj"])

    def same(what, want, got):
        want, got = float(np.asarray(want).item()), float(np.asarray(got).item())
        if want * factor != got:
            core.fail("%s is %r, but %r (instead of %r) after %r of the attributes %r", what, want, got,
                      want * factor, c["steps"], c["attr"])
        return want

    value = same("the objective", ctx.call("objective", f, labels, base), ctx.call("objective", f, labels, arr))
    nb = core.nbrs(c["graph"])
    for a, r in ref.feasible_moves(c["labels"], nb)[:6]:
        same("update() for moving area %r to region %r" % (a, r),
             ctx.call("update", f.update, a, r, labels, base),
             ctx.call("update", core.make_objective(c["obj"]).update, a, r, labels, arr))
    ctx.nontrivial = value != 0
    ctx.tag(c["obj"]["kind"])
    tags(ctx, c["steps"])


# ----------------------------------------------------------------------- max-p

def spat_steps(s, prob):
    ks = [s.choice([-40, -33, -27, -14, 3, 20, 33, 40, 0]) for _ in prob["threshold"]]
    return [ks[0]] * len(ks) if prob["form"] == "2d_scalar" else ks


def spat_in(prob, ks):
    f = 2.0 ** np.array(ks)
    spat = np.array(prob["spat"], dtype=float) * f
    t = np.array(prob["threshold"], dtype=float) * f
    if prob["form"] == "1d":
        return spat.reshape(-1), float(t[0])
    if prob["form"] == "2d_scalar" or prob["form"] == "2d" and len(t) == 1:
        return spat, float(t[0])
    return spat, t


def g_maxp(s):
    obj = scalable(s)
    prob = max_p_problem(s, 3, 9)
    prob.pop("dtype", None)
    return {"prob": prob, "obj": obj, "seed": s.int(0, 10 ** 6), "max_it": s.choice([1, 3]),
            "local_search": s.choice([None, gen.heuristic(s, ["azp", "basic", "reactive"])]),
            "steps": change(s, prob["attr"], obj["metric"], obj["kind"] == "center"),
            "spat_steps": spat_steps(s, prob)}


def run_maxp(c, attr, ks):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    ls, prob = c["local_search"], c["prob"]
    est = MaxPRegionsHeu(local_search=None if ls is None else core.make_heuristic(ls), random_state=c["seed"])
    spat, threshold = spat_in(prob, ks)
    est.fit(core.adj_matrix(prob["graph"]), attr, spat, threshold, max_it=c["max_it"],
            objective_func=core.make_objective(c["obj"]))
    return core.labels_of(est, prob["graph"]["n"])


def check_maxp(c, ctx):
    prob = c["prob"]
    arr, _ = converted(prob["attr"], c["steps"], c["obj"]["metric"])
    before = ctx.call("MaxPRegionsHeu", run_maxp, c, np.array(prob["attr"], dtype=float), [0] * len(prob["threshold"]))
    after = ctx.call("MaxPRegionsHeu in other units", run_maxp, c, arr, c["spat_steps"])
    if before != after:
        core.fail("MaxPRegionsHeu: labels %r, but %r after %r of the attributes and 2**%r for the spatially extensive "
                  "attributes", before, after, c["steps"], c["spat_steps"])
    ctx.nontrivial = 1 < len(set(before)) < len(before)
    tags(ctx, c["steps"])


# ---------------------------------------------------------------------- SKATER

def g_skater(s):
    c = sk.problem(s, 3, 12)
    c["spec"] = sk.spec(s)
    if c["spec"]["metric"] == "affinity":
        c["spec"]["metric"] = "manhattan"
    c["steps"] = change(s, c["data"], c["spec"]["metric"], True)
    return c


def check_skater(c, ctx):
    arr, factor = converted(c["data"], c["steps"], c["spec"]["metric"])
    n, comps = c["graph"]["n"], ref.components(range(c["graph"]["n"]), core.nbrs(c["graph"]))
    if len(comps) > 1 and min(map(len, comps)) < (c["quorum"] or 0):
        ctx.tag("infeasible")
        return
    got = []
    for data in (c["data"], arr.tolist()):
        est = sk.estimator(c["spec"])
        ctx.call("SKATER fit", sk.fit, est, dict(c, data=data))
        labels = [int(x) for x in est.current_labels_]
        got.append((labels, float(est.score(np.array(data, dtype=float)))))
    if got[0][0] != got[1][0]:
        core.fail("SKATER: labels %r, but %r after %r of the data", got[0][0], got[1][0], c["steps"])
    if got[0][1] * factor != got[1][1]:
        core.fail("SKATER: score %r, but %r after %r of the data", got[0][1], got[1][1], c["steps"])
    ctx.nontrivial = len(comps) < len(set(got[0][0])) < n
    tags(ctx, c["steps"])


# ----------------------------------------------------------------------- exact

def g_exact(s):
    metric = s.choice(EXACT_METRICS + ["manhattan", "euclidean"])
    if s.chance(60):
        prob = gen.p_problem(s, 3, 6, start=False, max_cols=2, value_kinds=["small", "ints", "two"], disconnected=15)
        c = {"kind": "p", "method": s.choice(["flow", "order", "tree"]), "prob": prob}
    else:
        prob = max_p_problem(s, 3, 4, kinds=["small", "ints", "two"])
        prob.pop("dtype", None)
        c = {"kind": "maxp", "prob": prob, "spat_steps": spat_steps(s, prob)}
    return dict(c, metric=metric, steps=change(s, prob["attr"], metric))


def check_exact(c, ctx):
    from region.max_p_regions.exact import MaxPRegionsExact
    from region.p_regions.exact import PRegionsExact
    prob = c["prob"]
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    arr, _ = converted(prob["attr"], c["steps"], c["metric"])
    adj, metric = core.adj_matrix(prob["graph"]), core.metric_arg(c["metric"])
    d = ref.pair_matrix(c["metric"], prob["attr"])
    top = max(max(row) for row in d)
    if c["kind"] == "p":
        est = PRegionsExact()
        ctx.call("PRegionsExact(%s)" % c["method"], est.fit, adj, arr, prob["p"], method=c["method"], metric=metric)
        best = (prob["p"], ref.best_p_partition(n, nb, prob["p"], d))
    else:
        est = MaxPRegionsExact()
        spat, threshold = spat_in(prob, c["spat_steps"])
        ctx.call("MaxPRegionsExact", est.fit, adj, arr, spat, threshold, metric=metric)
        best = ref.best_max_p(n, nb, prob["spat"], prob["threshold"], d)
    labels = core.labels_of(est, n)
    bad = ref.partition_problem(labels, n, nb, best[0])
    if bad is None and c["kind"] == "maxp":
        bad = threshold_problem(labels, prob)
    if bad:
        core.fail("%s (labels %r; after %r)", bad, labels, c["steps"])
    got = ref.objective({"kind": "pairwise", "metric": c["metric"]}, labels, prob["attr"])
    if got > best[1] + 1e-6 * top:
        core.fail("labels %r after %r of the attributes have (in the original units) the objective %r, the optimum is "
                  "%r", labels, c["steps"], got, best[1])
    ctx.nontrivial = 1 < best[0] < n and top > 0
    ctx.tag(c.get("method", c["kind"]))
    tags(ctx, c["steps"])


PARTS = [
    {"name": "heuristic", "gen": g_heuristic, "check": check_heuristic, "quick": 4500, "thorough": 200000},
    {"name": "objective", "gen": g_objective, "check": check_objective, "quick": 4000, "thorough": 100000},
    {"name": "maxp", "gen": g_maxp, "check": check_maxp, "quick": 2400, "thorough": 60000},
    {"name": "skater", "gen": g_skater, "check": check_skater, "quick": 1200, "thorough": 30000},
    {"name": "exact", "gen": g_exact, "check": check_exact, "quick": 500, "thorough": 12000},
]
