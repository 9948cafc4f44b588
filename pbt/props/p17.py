"""P17: simulated annealing follows the Metropolis rule and keeps exact books."""
import math
import random

import numpy as np

import core
import formats
import gen
import ref

ID = "P17"
RULE = ("books: a sequence of proposals, temperature changes, resets and new components against a reference model "
        "of the strategy; metropolis: 20000 proposals with prescribed changes of the objective, acceptance counts "
        "against exp(-d/T); cooling: runs of the whole algorithm with one pass per round, every worsening proposal "
        "of round k against exp(-d/(T0 c^k)); cold: whole runs at vanishing temperature from a valid start. "
        "Non-trivial: a worsening move was accepted and another refused (books), expected acceptance between 1 % "
        "and 99 % (metropolis), 300 worsening proposals (cooling), the start has an improving or worsening "
        "feasible move (cold).")
ASSUMPTIONS = ["statistical verdicts: alarm only where the deviation has probability below 1e-9 per case"]


def strategy(t, term=None):
    from region.p_regions.azp_util import AllowMoveAZPSimulatedAnnealing
    return AllowMoveAZPSimulatedAnnealing(t, term)


# --------------------------------------------------------------------- books

def g_books(s):
    prob = gen.p_problem(s, 3, 8, start=True, value_kinds=["small", "ints", "dyadic", "two", "big"],
                         disconnected=15, max_cols=2)
    ops = []
    for _ in range(s.int(1, 25)):
        k = s.int(0, 99)
        if k < 80:
            ops.append(["move", s.int(0, 63)])
        elif k < 88:
            ops.append(["temp", s.int(0, 4)])
        elif k < 96:
            ops.append(["reset", 0])
        else:
            ops.append(["new", 0])
    return {"prob": prob, "t": s.int(0, 4), "term": s.int(1, 4), "ops": ops, "seed": s.int(0, 10 ** 6),
            "filter": s.chance(25)}


TEMPS = [1e-200, .5, 10, 1000, 1e9]


def check_books(c, ctx):
    from region.objective_function import ObjectiveFunctionPairwise
    from region.p_regions.azp_util import AllowMoveAZPMaxPRegions
    prob = c["prob"]
    nb = core.nbrs(prob["graph"])
    n, attr, labels = prob["graph"]["n"], prob["attr"], list(prob["start"])
    obj = {"kind": "pairwise", "metric": "manhattan"}
    t = TEMPS[c["t"]]
    st = ctx.call("creating the strategy", strategy, t, c["term"])
    made, alerts = [0], [0]

    def on_move():
        made[0] += 1

    def on_alert():
        alerts[0] += 1

    st.register_move_made(on_move)
    st.register_sa_moves_term(on_alert)
    if c["filter"]:      # inside the (always satisfied) threshold filter
        st = AllowMoveAZPMaxPRegions(np.zeros((n, 1)), np.array([0]), st)
    arr = np.array(attr)
    random.seed(c["seed"])
    st.start_new_component(np.array(labels), arr, ObjectiveFunctionPairwise("manhattan"), np.arange(n))
    value = ref.objective(obj, labels, attr)
    worse = 0
    accepted_worse = refused = False

    def books(what):
        if abs(float(st.objective_val) - value) > 1e-6:
            core.fail("objective_val is %r instead of %r after %s", float(st.objective_val), value, what)

    books("start_new_component")
    for op, k in c["ops"]:
        if op == "temp":
            t = TEMPS[k]
            st.update_temperature(t)
        elif op == "reset":
            st.reset()
            worse = 0
        elif op == "new":
            st.start_new_component(np.array(labels), arr, ObjectiveFunctionPairwise("manhattan"), np.arange(n))
            value = ref.objective(obj, labels, attr)
        else:
            moves = ref.feasible_moves(labels, nb)
            if not moves:
                return
            a, r = moves[k % len(moves)]
            after = ref.moved(labels, a, r)
            diff = ref.objective(obj, after, attr) - ref.objective(obj, labels, attr)
            m0, a0 = made[0], alerts[0]
            lab = np.array(labels)
            ok = bool(ctx.call("proposal", st, a, r, lab))
            what = "proposal of change %r at T=%r (accepted: %r)" % (diff, t, ok)
            if lab.tolist() != labels:
                core.fail("the %s changed the labels", what)
            if diff <= 0 and not ok:
                core.fail("%s: a move that does not worsen the objective was refused", what)
            if diff > 0 and diff / t > 700 and ok:
                core.fail("%s: accepted", what)
            if diff > 0 and diff / t < 1e-15 and not ok:
                core.fail("%s: refused", what)
            if ok:
                labels, value = after, value + diff
            if made[0] != m0 + (1 if ok else 0):
                core.fail("%s was reported %d times as move made", what, made[0] - m0)
            if ok and diff > 0:
                worse += 1
                accepted_worse = True
                if worse >= c["term"] and alerts[0] == a0 and worse == c["term"]:
                    core.fail("no alert after %d of %d worsening moves", worse, c["term"])
            if not ok:
                refused = True
            if alerts[0] != a0 and worse < c["term"]:
                core.fail("alert after %d worsening moves since the last reset, limit %d", worse, c["term"])
            books(what)
        if op != "move":
            books(op)
    ctx.nontrivial = accepted_worse and refused
    if alerts[0]:
        ctx.tag("alert")
    if accepted_worse:
        ctx.tag("accepted worse")


# ---------------------------------------------------------------- metropolis

def surprise(k, n, p):
    """n times the relative entropy; P(deviation at least so big) is at most
    2 exp(-surprise)."""
    q = k / n
    res = 0.0
    if q > 0:
        res += q * math.log(q / p) if p > 0 else float("inf")
    if q < 1:
        res += (1 - q) * math.log((1 - q) / (1 - p)) if p < 1 else float("inf")
    return n * res


def g_metro(s):
    return {"t0": s.choice([1, .01, 3.5, 250, 1e6]), "change": s.choice([None, 1, .3, 2, 1000]),
            "ratios": [s.int(1, 600) / 100 for _ in range(s.int(1, 3))], "term": s.choice([1, 5, 10 ** 6]),
            "seed": s.int(0, 10 ** 6), "np": s.bool()}


def check_metro(c, ctx):
    from region.objective_function import ObjectiveFunction

    class Given(ObjectiveFunction):
        diff = 0.0
        metric = None

        def __init__(self):
            pass

        def __call__(self, labels, attr):
            return 0.0

        def update(self, moving_area, new_region, labels, attr):
            return self.diff

    t = c["t0"]
    st = strategy(t, c["term"])
    obj = Given()
    labels = np.array([0, 0, 1, 1])
    st.start_new_component(labels, np.zeros((4, 1)), obj, np.arange(4))
    if c["change"]:
        t = t * c["change"]
        st.update_temperature(t)
    random.seed(c["seed"])
    np.random.seed(c["seed"])
    draws = 20000 // len(c["ratios"])
    hits = [0] * len(c["ratios"])
    diffs = [r * t for r in c["ratios"]]
    if c["np"]:
        diffs = [np.float64(d) for d in diffs]
    total = 0.0
    for _ in range(draws):
        for k, d in enumerate(diffs):
            obj.diff = d
            if st(1, 1, labels):
                hits[k] += 1
                total += float(d)
    for k, r in enumerate(c["ratios"]):
        p = math.exp(-r)
        if surprise(hits[k], draws, p) > 24:
            core.fail("a move worsening by d at T=%r with d/T=%r was accepted %d of %d times, expected %.1f",
                      t, r, hits[k], draws, p * draws)
    if abs(float(st.objective_val) - total) > 1e-6 * max(1, total):
        core.fail("objective_val %r after accepted changes of %r", float(st.objective_val), total)
    ctx.nontrivial = .01 < math.exp(-c["ratios"][0]) < .99


# ------------------------------------------------------------------- cooling

def g_cool(s):
    prob = gen.p_problem(s, 5, 8, max_comp=1, start=True, value_kinds=["float"], max_cols=2)
    if prob["p"] in (1, prob["graph"]["n"]):
        prob["p"] = 2
        prob["start"] = gen.partition(s, prob["graph"], 2)
    fmt = s.choice(["matrix", "w", "dict", "nx", "gdf"])
    cells = []
    if fmt == "gdf":
        cells = [[r, c] for r in range(2) for c in range(s.int(3, 4))]
        g = prob["graph"] = formats.graph_of({"cells": cells})
        prob["attr"] = gen.attrs(s, g["n"], 2, ["float"])
        prob["p"] = s.int(2, 3)
        prob["start"] = gen.partition(s, g, prob["p"])
    return {"prob": prob, "t0": s.choice([300, 1000, 5000]), "cf": s.choice([.3, .5, .7, .95, None]),
            "fmt": fmt, "cells": cells,
            "seed": s.int(0, 10 ** 6)}


def check_cool(c, ctx):
    from region.p_regions.azp import AZPSimulatedAnnealing
    prob = c["prob"]
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    kw = {"cooling_factor": c["cf"]} if c["cf"] else {}
    cf = c["cf"] or .85         # the documented default
    got, exp, var = {}, {}, {}
    number = 0
    obj = {"kind": "pairwise", "metric": "manhattan"}
    for run in range(40):
        log = []
        est = AZPSimulatedAnnealing(
            init_temperature=c["t0"], max_iterations=1, sa_moves_term=10 ** 6, nonmoving_steps_before_stop=2,
            repetitions_before_termination=3, random_state=c["seed"] * 100 + run)
        inp = formats.Input({"cells": c["cells"], "ids": list(range(n)), "kind": "int"}, c["fmt"],
                            [list(range(n))] * 3, graph=prob["graph"])
        ctx.call("sa fit", inp.fit, est, inp.table("attr", prob["attr"]), prob["p"],
                 initial_labels=inp.start(prob["start"]), objective_func=core.make_objective(obj, limit=10 ** 6, log=log),
                 **kw)
        rounds = sum(ev[0] == "value" for ev in log)
        if not len(getattr(est, "visited", ())) <= rounds <= len(getattr(est, "visited", ())) + 1:
            ctx.tag("rounds not observable")
            return
        log.append(("value", tuple(core.labels_of(est, n)), None))
        rnd = -1
        for i, ev in enumerate(log[:-1]):
            if ev[0] == "value":
                rnd += 1
                continue
            if log[i + 1][0] == "update" and log[i + 1][1:4] == ev[1:4]:
                continue
            _, labels, area, region, diff = ev
            after = log[i + 1][1]
            accepted = after[area] == region
            if diff > 1e-6:
                p = math.exp(-diff / (c["t0"] * cf ** rnd))
                k = min(rnd, 3)
                got[k] = got.get(k, 0) + accepted
                exp[k] = exp.get(k, 0) + p
                var[k] = var.get(k, 0) + p * (1 - p)
                number += 1
            elif diff < -1e-6 and not accepted:
                core.fail("round %d: a move improving by %r was refused", rnd, -diff)
        if number > 4000:
            break
    for k in got:
        x = 28.0
        bound = math.sqrt(2 * var[k] * x) * 1.42 + 2 * x / 3 + 1
        if abs(got[k] - exp[k]) > bound:
            core.fail("round %d (temperature %r * %r^k): %d worsening moves accepted, %.1f expected "
                      "(bound %.1f)", k, c["t0"], cf, got[k], exp[k], bound)
    ctx.nontrivial = number >= 300
    ctx.tag(c["fmt"], "proposals>%d" % (number // 1000 * 1000))


# ---------------------------------------------------------------------- cold

def g_cold(s):
    c = gen.heuristic_case(s, ["sa"], min_n=2, start=True)
    c["spec"]["init_temperature"] = s.choice([1e-200, 1e-100, 1e-30])
    return c


def check_cold(c, ctx):
    prob, obj = c["prob"], c["obj"]
    n, nb, attr = prob["graph"]["n"], core.nbrs(prob["graph"]), prob["attr"]
    est = core.make_heuristic(c["spec"])
    ctx.call("sa fit", core.fit_p, est, c["spec"], prob, core.make_objective(obj, limit=10 ** 6))
    labels = core.labels_of(est, n)
    bad = ref.partition_problem(labels, n, nb, prob["p"])
    if bad:
        core.fail("sa: %s", bad)
    before, after = ref.objective(obj, prob["start"], attr), ref.objective(obj, labels, attr)
    if after > before + core.tol_for(attr, obj["metric"]):
        core.fail("simulated annealing at vanishing temperature went from %r to %r", before, after)
    for a, r in ref.feasible_moves(prob["start"], nb):
        v = ref.objective(obj, ref.moved(prob["start"], a, r), attr)
        if abs(v - before) > 1e-6:
            ctx.nontrivial = True
    if after < before:
        ctx.tag("improved")


PARTS = [
    {"name": "books", "gen": g_books, "check": check_books, "quick": 6000, "thorough": 150000},
    {"name": "metropolis", "gen": g_metro, "check": check_metro, "quick": 1200, "thorough": 8000},
    {"name": "cooling", "gen": g_cool, "check": check_cool, "quick": 40, "thorough": 800},
    {"name": "cold", "gen": g_cold, "check": check_cold, "quick": 1500, "thorough": 30000},
]
