"""P02: no worse than the start; AZP ends in a local optimum."""
import core
import gen
import ref

ID = "P02"
RULE = ("A case is a p-regions problem, a heuristic (AZP, basic or reactive tabu) with parameters and "
        "seed, and an objective; never_worse gives it a valid start and compares the objective of start "
        "and result by the reference implementation, local_optimum tries every feasible single move on "
        "the result of AZP. Non-trivial: 1 < p < n and the start has a strictly improving feasible move "
        "(never_worse); no tied move was met and at least one feasible move exists (local_optimum).")
ASSUMPTIONS = ["objective values are compared up to rounding"]


def improving_move(labels, nb, obj, attr, tol):
    base = ref.objective(obj, labels, attr)
    for a, r in ref.feasible_moves(labels, nb):
        v = ref.objective(obj, ref.moved(labels, a, r), attr)
        if v < base - tol:
            return a, r, base, v
    return None


def g_worse(s):
    return gen.heuristic_case(s, ["azp", "basic", "reactive"], min_n=2, start=True)


def g_worse_large(s):
    return gen.large_heuristic_case(s, ["azp", "basic", "reactive"], start=True, max_n=40)


def check_worse(case, ctx):
    prob, spec, obj = case["prob"], case["spec"], case["obj"]
    n, nb, attr = prob["graph"]["n"], core.nbrs(prob["graph"]), prob["attr"]
    est = core.make_heuristic(spec)
    ctx.call("%s fit" % spec["algo"], core.fit_p, est, spec, prob,
             core.make_objective(obj, limit=10 ** 6))
    labels = core.labels_of(est, n)
    before = ref.objective(obj, prob["start"], attr)
    after = ref.objective(obj, labels, attr)
    tol = core.tol_for(attr, obj["metric"])
    if after > before + tol:
        core.fail("%s: objective %r of the result is worse than %r of the start", spec["algo"], after, before)
    bad = ref.partition_problem(labels, n, nb, prob["p"])
    if bad:
        core.fail("%s: %s", spec["algo"], bad)
    ctx.tag(spec["algo"], obj["kind"])
    if 1 < prob["p"] < n and n <= 12 and improving_move(prob["start"], nb, obj, attr, tol):
        ctx.nontrivial = True
    if after < before - tol:
        ctx.nontrivial = True
        ctx.tag("improved")


def g_opt(s):
    return gen.heuristic_case(s, ["azp"], min_n=3, value_kinds=["big", "float", "big", "ints"])


def g_opt_large(s):
    return gen.large_heuristic_case(s, ["azp"], max_n=30, value_kinds=["big", "float"])


def g_slow(s):
    """Long maps with rising attributes and all regions but one at one end:
    the descent has to hand areas over along the whole map, pass by pass."""
    m = s.int(14, 36)
    if s.chance(25):        # a ladder
        m //= 2
        edges = [(2 * i + k, 2 * i + k + 2) for i in range(m - 1) for k in range(2)]
        edges += [(2 * i, 2 * i + 1) for i in range(m)]
        order = [v // 2 for v in range(2 * m)]
    else:
        edges = [(i, i + 1) for i in range(m - 1)]
        order = list(range(m))
    n, k = len(order), max(order) + 1
    p = s.int(min(k, 6), min(k, 14))
    perm = s.perm(n) if s.bool() else list(range(n))
    flip = s.bool()
    attr, start = [None] * n, [None] * n
    for v in range(n):
        at = k - 1 - order[v] if flip else order[v]
        attr[perm[v]] = [order[v] * 1000 + s.int(-99, 99)]
        start[perm[v]] = min(at, p - 1)
    g = {"n": n, "edges": sorted(sorted([perm[a], perm[b]]) for a, b in edges), "comps": 1}
    obj = {"kind": "pairwise", "metric": s.choice(["manhattan", "manhattan", "euclidean"])}
    return {"prob": {"graph": g, "attr": attr, "p": p, "start": start},
            "spec": {"algo": "azp", "seed": s.int(0, 10 ** 6)}, "obj": obj}


def check_opt(case, ctx):
    prob, spec, obj = case["prob"], case["spec"], case["obj"]
    n, nb, attr = prob["graph"]["n"], core.nbrs(prob["graph"]), prob["attr"]
    est = core.make_heuristic(spec)
    rec = core.make_objective(obj, limit=10 ** 6)
    ctx.call("azp fit", core.fit_p, est, spec, prob, rec)
    labels = core.labels_of(est, n)
    bad = ref.partition_problem(labels, n, nb, prob["p"])
    if bad:
        core.fail("azp: %s", bad)
    if rec.zero:
        ctx.tag("tie")
        return
    better = improving_move(labels, nb, obj, attr, core.tol_for(attr))
    if better:
        core.fail("AZP stopped at %r (objective %r), but moving area %d to region %r gives %r",
                  labels, better[2], better[0], better[1], better[3])
    ctx.nontrivial = bool(ref.feasible_moves(labels, nb))
    ctx.tag(obj["kind"])
    if rec.evals > 3 * n:
        ctx.tag("long")


PARTS = [
    {"name": "never_worse", "gen": g_worse, "check": check_worse, "quick": 3000, "thorough": 60000},
    {"name": "never_worse_large", "gen": g_worse_large, "check": check_worse, "quick": 80, "thorough": 2000},
    {"name": "local_optimum", "gen": g_opt, "check": check_opt, "quick": 3000, "thorough": 60000},
    {"name": "local_optimum_large", "gen": g_opt_large, "check": check_opt, "quick": 80, "thorough": 2000},
    {"name": "local_optimum_slow", "gen": g_slow, "check": check_opt, "quick": 160, "thorough": 3000},
]
