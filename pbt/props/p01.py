"""P01: every p-regions heuristic ends with a valid partition."""
import core
import gen
import ref

ID = "P01"
RULE = ("A case is a feasible p-regions problem (map, attributes, p, maybe a start), one of the "
        "four heuristics with parameters and a seed, and an objective. Non-trivial: 1 < p < n "
        "and the map has at least one edge, so that regions of several areas compete for areas.")
ASSUMPTIONS = ["maps are symmetric and attributes finite"]


def limit_for(n):
    return 400000 if n <= 12 else 3000000


def small(s):
    return dict(gen.heuristic_case(s), dtype=s.choice(["float", "int"]))


def large(s):
    return dict(gen.large_heuristic_case(s), dtype="float")


def wide(s):
    return {"wide": gen.wide_spec(s, 140, 180), "spec": gen.heuristic(s, ["azp", "basic", "reactive"]),
            "start": s.bool()}


def check_wide(c, ctx):
    """Hundreds of areas, mostly with more regions than fit into one byte."""
    g, p, t = gen.wide_graph(c["wide"])
    spec = dict(c["spec"])
    if spec["algo"] == "basic":
        spec["repetitions_before_termination"] = 1
        p = max(p, 130)
    if spec["algo"] == "reactive":
        spec["max_iterations"] = min(spec["max_iterations"], 3)
    prob = {"graph": g, "attr": gen.attrs(t, g["n"], 2, ["big"]), "p": p,
            "start": gen.partition(t, g, p) if c["start"] else None}
    check({"prob": prob, "spec": spec, "obj": {"kind": "pairwise", "metric": "manhattan"}, "dtype": "float"}, ctx)


def check(case, ctx):
    prob, spec = case["prob"], case["spec"]
    n, p = prob["graph"]["n"], prob["p"]
    nb = core.nbrs(prob["graph"])
    est = ctx.call("creating the estimator", core.make_heuristic, spec)
    obj = core.make_objective(case["obj"], limit=limit_for(n))
    ctx.call("%s fit" % spec["algo"], core.fit_p, est, spec, prob, obj,
             {"float": float, "int": int}[case["dtype"]])
    bad = ref.partition_problem(core.labels_of(est, n), n, nb, p)
    if bad:
        core.fail("%s: %s", spec["algo"], bad)
    ctx.nontrivial = 1 < p < n and bool(prob["graph"]["edges"])
    ctx.tag(spec["algo"], "start" if prob["start"] else "random",
            case["obj"]["kind"])
    if prob["graph"]["comps"] > 1:
        ctx.tag("disconnected")
    if p == n:
        ctx.tag("p=n")
    if p == prob["graph"]["comps"]:
        ctx.tag("p=comps")
    for k in (1000, 10000, 100000):
        if obj.evals > k:
            ctx.tag("%s evals>%d" % (spec["algo"], k))


PARTS = [
    {"name": "small", "gen": small, "check": check, "quick": 1600, "thorough": 40000},
    {"name": "large", "gen": large, "check": check, "quick": 64, "thorough": 1500},
    {"name": "wide", "gen": wide, "check": check_wide, "quick": 16, "thorough": 300},
]
