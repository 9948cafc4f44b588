"""P06: MaxPRegionsHeu returns valid regions above the threshold."""
import numpy as np

import core
import gen
import ref
from props.p05 import max_p_problem, spat_args, threshold_problem

ID = "P06"
ASSUMPTIONS = []
RULE = ("A case is a feasible max-p-regions problem with non-negative spatially extensive attributes, "
        "max_it, seed, objective and local search; the result must be complete, contiguous and above the "
        "threshold everywhere, with no more regions than possible (enumerated for up to 8 areas). "
        "Non-trivial: the result has more than one region and fewer regions than areas.")


def local_search(s, prob):
    algo = s.choice(["default", "azp", "sa", "basic", "reactive"])
    if algo == "default":
        return None
    spec = gen.heuristic(s, [algo])
    if algo == "sa":
        spec.update(max_iterations=s.choice([1, 2]), nonmoving_steps_before_stop=1,
                    repetitions_before_termination=1)
    return spec


def g_case(s):
    prob = max_p_problem(s, 1, 8, max_cols=2, disconnected=30)
    ls = local_search(s, prob)
    obj = gen.objective(s, own=10)
    if ls and ls["algo"] == "sa" and prob["graph"]["n"] > 4:
        # see gen.heuristic_case
        prob["attr"] = gen.attrs(s, prob["graph"]["n"], 2, ["big", "float"])
        obj = gen.objective(s, reductions=["sum"])
        obj["center"] = "mean"
    return {"prob": prob, "local_search": ls, "obj": obj,
            "max_it": s.choice([10, 1, 2, 5]), "seed": s.int(0, 10 ** 6)}


def g_large(s):
    import random
    t = gen.TraceSource(random.Random(s.int(0, 2 ** 31)))
    prob = max_p_problem(t, 12, 36, max_cols=2, disconnected=40, kinds=["big", "float", "small", "ints"],
                         shapes=["grid", "grid", "extra", "tree", "gridqueen"])
    ls = local_search(s, prob)
    if ls and ls["algo"] == "sa":
        ls.update(max_iterations=1, init_temperature=1, cooling_factor=.1)
        prob["attr"] = gen.attrs(t, prob["graph"]["n"], 1, ["big"])
    return {"prob": prob, "local_search": ls, "obj": {"kind": "pairwise", "metric": "manhattan"},
            "max_it": s.choice([1, 2, 4]), "seed": s.int(0, 10 ** 6)}


def g_wide(s):
    return {"wide": gen.wide_spec(s, 150, 220), "algo": s.choice([None, "azp", "basic", "reactive"]),
            "seed": s.int(0, 10 ** 6), "threshold": s.choice([2, 3, 5, 9])}


def check_wide(c, ctx):
    """Hundreds of areas and regions."""
    g, _, t = gen.wide_graph(dict(c["wide"], p=1))
    ls = None
    if c["algo"]:
        ls = gen.heuristic(t, [c["algo"]])
        if c["algo"] == "basic":
            ls["repetitions_before_termination"] = 1
        if c["algo"] == "reactive":
            ls["max_iterations"] = 2
    comps = ref.components(range(g["n"]), core.nbrs(g))
    spat = [[t.choice([1, 1, 2, 3, 4])] for _ in range(g["n"])]
    low = min(sum(spat[i][0] for i in comp) for comp in comps)
    prob = {"graph": g, "attr": gen.attrs(t, g["n"], 2, ["big"]), "spat": spat,
            "threshold": [min(low, c["threshold"])], "form": "2d"}
    check({"prob": prob, "local_search": ls, "obj": {"kind": "pairwise", "metric": "manhattan"},
           "max_it": 1, "seed": c["seed"]}, ctx)


def max_p(prob):
    best = 0
    k = len(prob["threshold"])

    def ok(part):
        return all(sum(prob["spat"][i][e] for i in part) >= prob["threshold"][e] for e in range(k))
    for parts in ref.all_partitions(prob["graph"]["n"], core.nbrs(prob["graph"]), None, ok):
        best = max(best, len(parts))
    return best


def fit_heu(case, objective=None):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    ls = case["local_search"]
    prob = case["prob"]
    est = MaxPRegionsHeu(local_search=None if ls is None else core.make_heuristic(ls),
                         random_state=case["seed"])
    spat, threshold = spat_args(prob)
    if objective is None:
        objective = core.make_objective(case["obj"], limit=4 * 10 ** 6)
    est.fit(core.adj_matrix(prob["graph"]), core.attr_array(prob["attr"]), spat, threshold,
            max_it=case["max_it"], objective_func=objective)
    return est


def check(case, ctx):
    prob = case["prob"]
    n = prob["graph"]["n"]
    nb = core.nbrs(prob["graph"])
    name = "MaxPRegionsHeu(%s)" % (case["local_search"] or {"algo": "default"})["algo"]
    est = ctx.call(name, fit_heu, case)
    labels = core.labels_of(est, n)
    bad = ref.partition_problem(labels, n, nb) or threshold_problem(labels, prob)
    if bad:
        core.fail("%s: %s", name, bad)
    p = len(set(labels))
    if n <= 8 and p > max_p(prob):
        core.fail("%s: %d regions, but at most %d are possible", name, p, max_p(prob))
    ctx.nontrivial = 1 < p < n
    ctx.tag(name, prob["form"], prob.get("dtype", ""))
    if prob["graph"]["comps"] > 1:
        ctx.tag("disconnected")


PARTS = [
    {"name": "small", "gen": g_case, "check": check, "quick": 1600, "thorough": 24000},
    {"name": "large", "gen": g_large, "check": check, "quick": 80, "thorough": 1200},
    {"name": "wide", "gen": g_wide, "check": check_wide, "quick": 16, "thorough": 300},
]
