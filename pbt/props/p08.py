"""P08: all input formats describe the same problem."""
import contextlib

import numpy as np

import core
import formats
import gen
import ref
from props.p02 import improving_move

ID = "P08"
RULE = ("A case is a lattice map with missing cells in any row order, area names (ints, strings, tuples), "
        "an input format with its own insertion orders, and an estimator. The labels are read back by area "
        "and judged on the map itself: valid partition, exact optimum or local optimum with respect to the "
        "true attributes, thresholds with respect to the true spatially extensive attributes, and the objective "
        "function must have been called with every area's own attributes and starting label. Non-trivial: "
        "the areas' attributes are all different and the partition has a region of two or more areas and "
        "more than one region.")
ASSUMPTIONS = ["attribute vectors identify areas (they are drawn distinct)"]


def distinct_attr(s, n, cols):
    """Tie-free attributes."""
    vals = s.sample(0, 10 ** 6, n)
    return [[vals[i]] + [s.int(0, 10 ** 6) for _ in range(cols - 1)] for i in range(n)]


def spec_problem(s, min_n, max_n):
    m = formats.lattice(s, min_n, max_n)
    n = len(m["cells"])
    inp = formats.input_spec(s, n)
    g = formats.graph_of(m, inp["contiguity"])
    attr = distinct_attr(s, n, s.int(1, 3))
    lo = g["comps"]
    p = s.int(min(n, lo + 1), max(lo + 1, n - 1)) if lo + 1 < n else s.int(lo, n)
    return m, inp, g, attr, p


def g_heu(s):
    m, inp, g, attr, p = spec_problem(s, 2, 9)
    start = gen.partition(s, g, p) if s.chance(60) else None
    spec = gen.heuristic(s, ["azp", "azp", "basic", "reactive", "sa"])
    return {"map": m, "input": inp, "attr": attr, "p": p, "start": start, "spec": spec,
            "metric": s.choice(["manhattan", "chebyshev_fn", "sqeuclidean_fn"]), "omit": omitted(s)}


def omitted(s):
    """Which optional arguments are left out: 1 contiguity (if rook), 2 objective_func, 4 max_it."""
    return s.int(1, 7) if s.chance(40) else 0


def attr_log_objective(seen, metric, limit=10 ** 6):
    """A recorder which notes every (attribute row, label) pair it is called
    with at first, and all attribute rows."""
    from region.objective_function import ObjectiveFunctionPairwise

    class Log(ObjectiveFunctionPairwise):
        evals = 0
        zero = False

        def __call__(self, labels, attr):
            self.evals += 1
            if self.evals > limit:
                raise core.Budget("did not terminate within %d objective evaluations" % limit)
            seen.append((np.array(attr).tolist(), np.array(labels).tolist()))
            return super().__call__(labels, attr)

        def update(self, a, r, labels, attr):
            self.evals += 1
            if self.evals > limit:
                raise core.Budget("did not terminate within %d objective evaluations" % limit)
            res = super().update(a, r, labels, attr)
            if abs(float(np.asarray(res).reshape(-1)[0])) < 1e-6:
                self.zero = True
            return res
    return Log(core.metric_arg(metric))


@contextlib.contextmanager
def objective_or_default(case, seen, kw):
    """Put the recording objective into kw, or, if it is to be omitted, record
    what the default objective is asked.  Yields the recorder and the
    description of the objective."""
    from region.objective_function import ObjectiveFunctionPairwise as P
    omit = case.get("omit", 0)
    # documented is euclidean, for manhattan see the known finding metric-none of P03
    default = "manhattan" if float(P().metric(np.zeros((1, 2)), np.array([[3., 4.]]))) == 7 else "euclidean"
    metric = default if omit & 2 else case["metric"]
    rec = attr_log_objective(seen, metric)
    spec = {"kind": "pairwise", "metric": metric}
    if not omit & 2:
        kw["objective_func"] = rec
        yield rec, spec
        return
    call, update = P.__call__, P.update

    def logged_call(self, labels, attr):
        seen.append((np.array(attr).tolist(), np.array(labels).tolist()))
        return call(self, labels, attr)

    def logged_update(self, a, r, labels, attr):
        rec.evals += 1
        if rec.evals > 10 ** 6:
            raise core.Budget("did not terminate within 10^6 objective evaluations")
        res = update(self, a, r, labels, attr)
        if abs(float(np.asarray(res).reshape(-1)[0])) < core.tol_for(attr.tolist()):
            rec.zero = True
        return res
    P.__call__, P.update = logged_call, logged_update
    try:
        yield rec, spec
    finally:
        P.__call__, P.update = call, update


def check_heu(case, ctx):
    spec, attr, p = case["spec"], case["attr"], case["p"]
    inp = formats.make_input(case["map"], case["input"])
    est = core.make_heuristic(spec)
    seen = []
    a = inp.table("attr", attr)
    kw = dict(core.fit_kwargs(spec))
    omit = case.get("omit", 0)
    if case["start"] is not None:
        kw["initial_labels"] = inp.start(case["start"])
    if inp.fmt == "gdf" and not (omit & 1 and case["input"]["contiguity"] == "rook"):
        kw["contiguity"] = case["input"]["contiguity"]
    what = "%s from %s" % (spec["algo"], inp.fmt)
    with objective_or_default(case, seen, kw) as (obj, spec_obj):
        what += " with %r" % sorted(kw)
        ctx.call(what, inp.fit, est, a, p, **kw)
    tol = max(1e-6, core.tol_for(attr, spec_obj["metric"]))
    labels = inp.labels(est)
    bad = ref.partition_problem(labels, inp.n, inp.nb, p)
    if bad:
        core.fail("%s: %s (areas %r, labels %r)", what, bad, inp.names, labels)
    area_of = {tuple(row): i for i, row in enumerate(attr)}
    comps = {tuple(c) for c in ref.components(range(inp.n), inp.nb)}
    first = {}
    for rows, labs in seen:
        areas = tuple(area_of.get(tuple(r), -1) for r in rows)
        if tuple(sorted(areas)) not in comps and len(areas) != inp.n:
            core.fail("%s: the objective was evaluated for the attributes %r, which are not those of a "
                      "connected component", what, rows)
        first.setdefault(areas, labs)
    if case["start"] is not None:
        for areas, labs in first.items():
            want = [case["start"][i] for i in areas]
            if ref.canon(labs) != ref.canon(want):
                core.fail("%s: areas %r started with labels %r instead of %r", what, areas, labs, want)
        before = ref.objective(spec_obj, case["start"], attr)
        if spec["algo"] != "sa" and ref.objective(spec_obj, labels, attr) > before + max(tol, 1e-6 * before):
            core.fail("%s: worse than the start", what)
    if spec["algo"] == "azp" and not obj.zero:
        better = improving_move(labels, inp.nb, spec_obj, attr, tol)
        if better:
            core.fail("%s: %r is no local optimum of the map, moving area %d to region %r improves %r to %r",
                      what, labels, *better)
    ctx.nontrivial = 1 < p < inp.n
    ctx.tag(inp.fmt, spec["algo"], case["map"]["kind"])


PAIRWISE = {"kind": "pairwise", "metric": "manhattan"}


def g_exact(s):
    m, inp, g, attr, p = spec_problem(s, 2, 5)
    return {"map": m, "input": inp, "attr": attr, "p": p,
            "method": s.choice(["tree", "flow", "order"]), "metric": s.choice(["manhattan", "chebyshev_fn"])}


def check_exact(case, ctx):
    from region.p_regions.exact import PRegionsExact
    attr = [[x / 1000 for x in row] for row in case["attr"]]
    p = case["p"]
    inp = formats.make_input(case["map"], case["input"])
    a = inp.table("attr", attr)
    kw = {"contiguity": case["input"]["contiguity"]} if inp.fmt == "gdf" else {}
    est = PRegionsExact()
    what = "PRegionsExact from %s" % inp.fmt
    ctx.call(what, inp.fit, est, a, p, method=case["method"], metric=core.metric_arg(case["metric"]), **kw)
    labels = inp.labels(est)
    bad = ref.partition_problem(labels, inp.n, inp.nb, p)
    if bad:
        core.fail("%s: %s (areas %r, labels %r)", what, bad, inp.names, labels)
    best = ref.best_p_partition(inp.n, inp.nb, p, ref.pair_matrix(case["metric"], attr))
    got = ref.objective({"kind": "pairwise", "metric": case["metric"]}, labels, attr)
    if got > best + 1e-5 * max(1, best):
        core.fail("%s: objective %r of %r on the map, optimum %r", what, got, labels, best)
    ctx.nontrivial = 1 < p < inp.n
    ctx.tag(inp.fmt, case["map"]["kind"])


def g_maxp(s, max_n=8):
    m, inp, g, attr, _ = spec_problem(s, 2, max_n)
    n = g["n"]
    k = s.int(1, 2)
    spat = [[s.int(0, 9) for _ in range(k)] for _ in range(n)]
    comps = ref.components(range(n), core.nbrs(g))
    threshold = [s.int(0, max(0, min(sum(spat[i][e] for i in c) for c in comps))) for e in range(k)]
    return {"map": m, "input": inp, "attr": attr, "spat": spat, "threshold": threshold,
            "seed": s.int(0, 1000), "array": s.bool(), "omit": omitted(s),
            "metric": s.choice(["manhattan", "chebyshev_fn", "sqeuclidean_fn"])}


def g_maxp_exact(s):
    return g_maxp(s, 4)


def fit_maxp(case, ctx, est, what, attr, **kw):
    inp = formats.make_input(case["map"], case["input"])
    a = inp.table("attr", attr)
    sp = inp.table("spat", case["spat"])
    t = case["threshold"]
    if inp.fmt == "gdf" and not (case["omit"] & 1 and case["input"]["contiguity"] == "rook"):
        kw["contiguity"] = case["input"]["contiguity"]
    ctx.call("%s from %s" % (what, inp.fmt), inp.fit, est, a, sp,
             t[0] if len(t) == 1 and not (case["array"] and not inp.style & 1) else np.array(t), **kw)
    labels = inp.labels(est)
    bad = ref.partition_problem(labels, inp.n, inp.nb)
    if bad is None:
        for l, areas in ref.regions(labels).items():
            for e, th in enumerate(t):
                if sum(case["spat"][i][e] for i in areas) < th:
                    bad = "region %r (areas %r) does not reach threshold %d" % (l, areas, e)
    if bad:
        core.fail("%s from %s: %s (labels %r)", what, inp.fmt, bad, labels)
    ctx.tag(inp.fmt, case["map"]["kind"])
    ctx.nontrivial = 1 < len(set(labels)) < inp.n
    return inp, labels


def check_maxp_heu(case, ctx):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    attr = case["attr"]
    est = MaxPRegionsHeu(random_state=case["seed"])
    seen = []
    kw = {} if case["omit"] & 4 else {"max_it": 2}
    with objective_or_default(case, seen, kw) as (obj, spec_obj):
        inp, labels = fit_maxp(case, ctx, est, "MaxPRegionsHeu", attr, **kw)
    tol = max(1e-6, core.tol_for(attr, spec_obj["metric"]))
    if obj.zero:
        return
    base = ref.objective(spec_obj, labels, attr)
    for a, r in ref.feasible_moves(labels, inp.nb):
        new = ref.moved(labels, a, r)
        if any(sum(case["spat"][i][e] for i in areas) < t
               for areas in ref.regions(new).values() for e, t in enumerate(case["threshold"])):
            continue
        if ref.objective(spec_obj, new, attr) < base - tol:
            core.fail("MaxPRegionsHeu from %s: %r is no local optimum of the map (area %d to %r)",
                      inp.fmt, labels, a, r)


def check_maxp_exact(case, ctx):
    from region.max_p_regions.exact import MaxPRegionsExact
    attr = [[x / 1000 for x in row] for row in case["attr"]]
    est = MaxPRegionsExact()
    inp, labels = fit_maxp(case, ctx, est, "MaxPRegionsExact", attr,
                           metric=core.metric_arg(case["metric"]))
    best = ref.best_max_p(inp.n, inp.nb, case["spat"], case["threshold"], ref.pair_matrix(case["metric"], attr))
    got = (len(set(labels)), ref.objective({"kind": "pairwise", "metric": case["metric"]}, labels, attr))
    if got[0] != best[0] or got[1] > best[1] + 1e-5 * max(1, best[1]):
        core.fail("MaxPRegionsExact from %s: %r regions with objective %r, optimum %r", inp.fmt, *got, best)


PARTS = [
    {"name": "heuristics", "gen": g_heu, "check": check_heu, "quick": 3000, "thorough": 50000},
    {"name": "p_exact", "gen": g_exact, "check": core.confirm(check_exact), "quick": 600, "thorough": 8000},
    {"name": "maxp_heu", "gen": g_maxp, "check": check_maxp_heu, "quick": 1200, "thorough": 20000},
    {"name": "maxp_exact", "gen": g_maxp_exact, "check": core.confirm(check_maxp_exact), "quick": 500, "thorough": 6000},
]
