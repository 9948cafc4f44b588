"""P18: every heuristic terminates, also on maps full of ties."""
import random
from math import factorial, gcd

import numpy as np

import core
import gen
import ref
from props import p05, p06

ID = "P18"
RULE = ("A case is a problem with constant, two-valued or small-integer attributes (exact arithmetic, ties "
        "everywhere), a heuristic with parameters and a seed. The objective counts its evaluations and stops the "
        "run at a budget derived from the documented stop conditions (four times what the sweeps or iterations "
        "can use); CPU time is bounded as well. sa_stop: the recorded rounds must end exactly where the "
        "documented conditions hold first. Non-trivial: 1 < p < n and the start (or result) admits a feasible "
        "move that leaves the objective unchanged (sa_stop: more than one round).")
ASSUMPTIONS = ["budgets have slack, so a run wasting up to four times the bound is not noticed"]
TIES = ["const", "two", "two", "small"]
OBJ = {"kind": "pairwise", "metric": "manhattan"}


def n_values(attr):
    """Bound on the number of objective values (integer attributes)."""
    ds = [ref.dist("manhattan", a, b) for i, a in enumerate(attr) for b in attr[:i]]
    g = 0
    for d in ds:
        g = gcd(g, int(d))
    return 1 if g == 0 else int(sum(ds)) // g + 1


def azp_budget(n, p, attr):
    return 4 * (p * n * (n + 1) * (n_values(attr) + 2) + 2 * n)


def tied(labels, nb, attr):
    base = ref.objective(OBJ, labels, attr)
    return any(abs(ref.objective(OBJ, ref.moved(labels, a, r), attr) - base) < 1e-9
               for a, r in ref.feasible_moves(labels, nb))


def g_p(s):
    spec = gen.heuristic(s, ["azp", "basic", "basic", "reactive"])
    return {"prob": gen.p_problem(s, 2, 8, value_kinds=TIES, max_cols=2), "spec": spec}


def g_large(s):
    spec = gen.heuristic(s, ["azp", "basic", "reactive"])
    return {"prob": gen.large_problem(s, 16, 36, value_kinds=["const", "two", "two"]), "spec": spec}


def labelled_partitions(prob):
    """Number of labelled partitions into p regions, or None if many."""
    n, p = prob["graph"]["n"], prob["p"]
    count = 0
    for _ in ref.all_partitions(n, core.nbrs(prob["graph"]), p):
        count += 1
        if count > 3000:
            return None
    return count * factorial(p)


def check_p(c, ctx):
    prob, spec = c["prob"], c["spec"]
    n, p, attr = prob["graph"]["n"], prob["p"], prob["attr"]
    nb = core.nbrs(prob["graph"])
    edges = len(prob["graph"]["edges"])
    if spec["algo"] == "azp":
        budget = azp_budget(n, p, attr)
    elif spec["algo"] == "reactive":
        budget = 2 * prob["graph"]["comps"] * (spec["max_iterations"] * (4 * edges + 4) + 8)
    else:
        budget = 300000 if n <= 12 else 3000000
        if n <= 7:
            states = labelled_partitions(prob)
            if states is not None:
                its = spec["repetitions_before_termination"] * states + n_values(attr) + 2
                tabu = its if spec["tabu_length"] is None else min(spec["tabu_length"], its)
                budget = min(budget, 4 * its * (2 * edges + tabu + 2))
    est = core.make_heuristic(spec)
    rec = core.make_objective(OBJ, limit=budget)
    ctx.call("%s fit" % spec["algo"], core.fit_p, est, spec, prob, rec)
    labels = core.labels_of(est, n)
    ctx.tag(spec["algo"])
    if 1 < p < n:
        ctx.nontrivial = tied(prob["start"] or labels, nb, attr)
    if rec.evals > budget / 16:
        ctx.tag("%s budget/16" % spec["algo"])


def g_maxp(s):
    prob = p05.max_p_problem(s, 2, 9, kinds=TIES, disconnected=25)
    algo = s.choice(["default", "azp", "basic", "reactive"])
    return {"prob": prob, "local_search": None if algo == "default" else gen.heuristic(s, [algo]),
            "obj": OBJ, "max_it": s.choice([1, 2, 5]), "seed": s.int(0, 10 ** 6)}


def check_maxp(c, ctx):
    prob = c["prob"]
    n, attr = prob["graph"]["n"], prob["attr"]
    algo = (c["local_search"] or {"algo": "default"})["algo"]
    if algo in ("default", "azp"):
        budget = c["max_it"] * (azp_budget(n, n, attr) + 2 * n)
    elif algo == "reactive":
        budget = 2 * c["max_it"] * prob["graph"]["comps"] * (
            c["local_search"]["max_iterations"] * (4 * len(prob["graph"]["edges"]) + 4) + 10)
    else:
        budget = 300000
    rec = core.make_objective(OBJ, limit=budget)
    est = ctx.call("MaxPRegionsHeu(%s)" % algo, p06.fit_heu, c, rec)
    labels = core.labels_of(est, n)
    ctx.tag(algo)
    if 1 < len(set(labels)) < n:
        ctx.nontrivial = tied(labels, core.nbrs(prob["graph"]), attr)


def g_sa(s):
    """Ties on tiny maps, or no ties on small ones (see DESIGN.md)."""
    tiny = s.bool()
    prob = gen.p_problem(s, 3, 4 if tiny else 7, max_comp=1, max_cols=2, start=True,
                         value_kinds=TIES if tiny else ["float", "big"])
    spec = {"algo": "sa", "seed": s.int(0, 10 ** 6), "init_temperature": s.choice([1, 1e-9, .5, 10, 500, 1e6]),
            "max_iterations": 1, "sa_moves_term": s.choice([1, 2, 10]),
            "nonmoving_steps_before_stop": s.int(1, 4), "repetitions_before_termination": s.int(1, 4),
            "cooling_factor": s.choice([.1, .5, None])}
    return {"prob": prob, "spec": spec, "refit": s.choice([0, 0, 1, 2])}


def check_sa(c, ctx):
    prob, spec = c["prob"], c["spec"]
    n, attr, nb = prob["graph"]["n"], prob["attr"], core.nbrs(prob["graph"])
    states = 1
    for _ in ref.all_partitions(n, nb, prob["p"]):
        states += 1
    reps = spec["repetitions_before_termination"]
    states *= factorial(prob["p"])
    budget = 8 * (reps * states + 2) * azp_budget(n, prob["p"], [[0]] * n)
    est = core.make_heuristic(spec)
    for again in range(2 if c["refit"] else 1):
        if again and c["refit"] == 2:       # go on from the first result
            prob = dict(prob, start=list(final))
        log = []
        ctx.call("sa fit", core.fit_p, est, spec, prob,
                 core.make_objective(OBJ, limit=min(budget, 10 ** 6), log=log))
        final = tuple(core.labels_of(est, n))
        # one round = one pass of AZP = one evaluation of the start
        ends, moved = [], []
        current = None
        for ev in log:
            if ev[0] == "value":
                if current is not None:
                    ends.append(ev[1])
                    moved.append(current != ev[1] or was_moved)
                current, was_moved = ev[1], False
            elif current is not None and ev[1] != current:
                was_moved = True
        ends.append(final)
        moved.append(current != final or was_moved)
        visited = getattr(est, "visited", None)
        if visited is None or not len(visited) <= len(ends) <= len(visited) + 1:
            ctx.tag("rounds not observable")
            return
        what = "rounds ended with %r, moves made in rounds: %r" % (ends, moved)
        still = 0
        for k, e in enumerate(ends):
            last = k == len(ends) - 1
            over = ends[:k + 1].count(e) >= reps + 1
            still += not moved[k]
            stop = over or still >= spec["nonmoving_steps_before_stop"]
            if stop and not last:
                core.fail("round %d met a stop condition (seen %d times, %d rounds without a move), but %d rounds "
                          "followed; %s", k + 1, ends[:k + 1].count(e), still, len(ends) - 1 - k, what)
            if last and not stop:
                core.fail("stopped after round %d although no stop condition held; %s", k + 1, what)
        if len(ends) > 1:
            ctx.nontrivial = True
        ctx.tag("repetition" if over else "nonmoving", "rounds=%d" % min(len(ends), 5))


PARTS = [
    {"name": "ties", "gen": g_p, "check": check_p, "quick": 3000, "thorough": 60000},
    {"name": "ties_large", "gen": g_large, "check": check_p, "quick": 64, "thorough": 1500},
    {"name": "maxp_ties", "gen": g_maxp, "check": check_maxp, "quick": 800, "thorough": 16000},
    {"name": "sa_stop", "gen": g_sa, "check": check_sa, "quick": 2000, "thorough": 40000},
]
