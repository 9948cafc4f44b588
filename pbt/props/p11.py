"""P11: earlier fits do not influence later fits."""
import random

import numpy as np

import core
import formats
import gen
import ref
from props.p02 import improving_move

ID = "P11"
RULE = ("A case is one to three estimator instances and a sequence of two to five fits, each on its own map, "
        "through its own entry point, some of them rejected, interleaved between the instances (with a local "
        "search shared between MaxPRegionsHeu and direct use). Every fit is judged like that of a fresh "
        "instance, and compared with a fresh instance where the random numbers can be made equal. "
        "Non-trivial: a successful fit with more than one region and fewer regions than areas follows an "
        "earlier fit that involved the same instance.")
ASSUMPTIONS = ["labels are compared with those of a fresh instance only if fresh instances with different "
               "random_states agree once the global generator is reseeded before the fit"]
PAIRWISE = {"kind": "pairwise", "metric": "manhattan"}


def a_map(s, min_n, max_n):
    m = formats.lattice(s, min_n, max_n)
    n = len(m["cells"])
    inp = formats.input_spec(s, n)
    return m, inp, formats.graph_of(m, inp["contiguity"]), n


def p_op(s, who, max_n, kinds):
    m, inp, g, n = a_map(s, min(3, max_n), max_n)
    lo = g["comps"]
    p = s.int(min(n, lo + 1), max(lo + 1, n - 1)) if lo + 1 < n and s.chance(80) else s.int(lo, n)
    op = {"who": who, "map": m, "input": inp, "attr": gen.attrs(s, n, 2, kinds), "p": p,
          "start": gen.partition(s, g, p) if s.bool() else None, "seed": s.int(0, 1000), "bad": None}
    if s.chance(25):
        op["bad"] = s.choice(["too_many", "nonpositive"])
    return op


def maxp_op(s, who, max_n, kinds):
    m, inp, g, n = a_map(s, min(3, max_n), max_n)
    k = s.int(1, 2)
    spat = [[s.int(1, 5) for _ in range(k)] for _ in range(n)]
    comps = ref.components(range(n), core.nbrs(g))
    sums = [min(sum(spat[i][e] for i in c) for c in comps) for e in range(k)]
    t = [s.int(min(v, 3), max(min(v, 3), v // 2)) for v in sums]
    op = {"who": who, "map": m, "input": inp, "attr": gen.attrs(s, n, 2, kinds), "spat": spat,
          "threshold": t, "seed": s.int(0, 1000), "bad": None, "max_it": s.int(1, 3)}
    if s.chance(25):
        op["bad"] = "threshold"
        op["threshold"] = [t[0]] * (k - 1) + [sums[k - 1] + s.choice([1, 50])]
    return op


def g_heuristics(s):
    insts = [gen.heuristic(s) for _ in range(s.int(1, 2))]
    for spec in insts:
        if spec["algo"] == "sa":
            spec.update(max_iterations=s.choice([1, 2]), repetitions_before_termination=1,
                        nonmoving_steps_before_stop=1)
    ops = []
    for _ in range(s.int(2, 5)):
        who = s.int(0, len(insts) - 1)
        sa = insts[who]["algo"] == "sa"
        ops.append(p_op(s, who, 7 if sa else 9,
                        ["big", "float"] if sa else ["small", "ints", "two", "float", "big", "big"]))
    return {"insts": insts, "ops": ops}


def g_exact(s):
    insts = [s.choice([{"algo": "p_exact"}, {"algo": "maxp_exact"}]) for _ in range(s.int(1, 2))]
    ops = []
    for _ in range(s.int(2, 4)):
        who = s.int(0, len(insts) - 1)
        if insts[who]["algo"] == "p_exact":
            op = p_op(s, who, 4, ["small", "ints", "two"])
            op["method"] = s.choice(["flow", "order", "tree"])
        else:
            op = maxp_op(s, who, 4, ["small", "ints", "two"])
        op["metric"] = s.choice(["manhattan", "euclidean", "chebyshev_fn"])
        ops.append(op)
    return {"insts": insts, "ops": ops}


def g_maxp(s):
    """A local search, one or two MaxPRegionsHeu using it, one without."""
    ls = gen.heuristic(s, ["azp", "basic", "reactive", "sa"])
    sa = ls["algo"] == "sa"
    if sa:
        ls.update(max_iterations=1, repetitions_before_termination=1, nonmoving_steps_before_stop=1)
    insts = [ls, {"algo": "maxp", "ls": 0, "seed": s.int(0, 1000)}]
    insts.append({"algo": "maxp", "ls": s.choice([0, None]), "seed": s.int(0, 1000)})
    ops = []
    kinds = ["big", "float"] if sa else ["small", "float", "big"]
    for _ in range(s.int(2, 5)):
        who = s.choice([0, 1, 1, 2])
        ops.append((p_op if who == 0 else maxp_op)(s, who, 6 if sa else 8, kinds))
    return {"insts": insts, "ops": ops}


def g_skater(s):
    ops = []
    for _ in range(s.int(2, 4)):
        g = gen.graph(s, 2, 9, 3, disconnected=25)
        comps = ref.components(range(g["n"]), core.nbrs(g))
        op = {"graph": g, "attr": gen.attrs(s, g["n"], 2, ["small", "ints", "float"]),
              "k": s.int(1, 5), "quorum": s.int(0, 4), "trace": s.bool(), "data": s.chance(85),
              "islands": s.choice(["ignore", "increase"])}
        if g["comps"] > 1 and s.chance(70):
            op["quorum"] = min(op["quorum"], min(len(c) for c in comps))
        ops.append(op)
    return {"ops": ops}


# ------------------------------------------------------------------ building

def make(insts):
    from region.max_p_regions.exact import MaxPRegionsExact
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    from region.p_regions.exact import PRegionsExact
    made = []
    for spec in insts:
        if spec["algo"] == "p_exact":
            made.append(PRegionsExact())
        elif spec["algo"] == "maxp_exact":
            made.append(MaxPRegionsExact())
        elif spec["algo"] == "maxp":
            made.append(MaxPRegionsHeu(local_search=None if spec["ls"] is None else made[spec["ls"]],
                                       random_state=spec["seed"]))
        else:
            made.append(core.make_heuristic(spec))
    return made


def fresh(insts, who, shift):
    """A fresh instance of insts[who] with other random_states."""
    return make([dict(x, seed=x["seed"] + shift) if "seed" in x else x for x in insts])[who]


def fit(est, spec, op):
    """Fit; returns the input and the objective (for its tie flag)."""
    inp = formats.make_input(op["map"], op["input"])
    a = inp.table("attr", op["attr"])
    kw = {}
    if inp.fmt == "gdf":
        kw["contiguity"] = op["input"]["contiguity"]
    obj = None
    if "metric" in op:
        kw["metric"] = core.metric_arg(op["metric"])
    else:
        obj = kw["objective_func"] = core.make_objective(PAIRWISE, limit=2 * 10 ** 6)
    if "spat" in op:
        sp = inp.table("spat", op["spat"])
        t = op["threshold"]
        if obj is not None:
            kw["max_it"] = op["max_it"]
        inp.fit(est, a, sp, t[0] if len(t) == 1 else np.array(t), **kw)
        return inp, obj
    p = op["p"]
    if op["bad"]:
        p = inp.n + 1 if op["bad"] == "too_many" else 0
    if "method" in op:
        kw["method"] = op["method"]
    elif op["start"] is not None:
        kw["initial_labels"] = inp.start(op["start"])
    kw.update(core.fit_kwargs(spec))
    inp.fit(est, a, p, **kw)
    return inp, obj


def judge(spec, op, inp, obj, labels, what):
    nb, attr = inp.nb, op["attr"]
    bad = ref.partition_problem(labels, inp.n, nb, op.get("p"))
    if bad is None and "spat" in op:
        for l, areas in ref.regions(labels).items():
            for e, t in enumerate(op["threshold"]):
                if sum(op["spat"][i][e] for i in areas) < t:
                    bad = "region %r (areas %r) does not reach threshold %d" % (l, areas, e)
    if bad:
        core.fail("%s: %s (labels %r)", what, bad, labels)
    if spec["algo"] == "p_exact":
        best = ref.best_p_partition(inp.n, nb, op["p"], ref.pair_matrix(op["metric"], attr))
        got = ref.objective({"kind": "pairwise", "metric": op["metric"]}, labels, attr)
        if got > best + 1e-5 * max(1, best):
            core.fail("%s: objective %r, optimum %r", what, got, best)
    elif spec["algo"] == "maxp_exact":
        best = ref.best_max_p(inp.n, nb, op["spat"], op["threshold"], ref.pair_matrix(op["metric"], attr))
        got = (len(set(labels)), ref.objective({"kind": "pairwise", "metric": op["metric"]}, labels, attr))
        if got[0] != best[0] or got[1] > best[1] + 1e-5 * max(1, best[1]):
            core.fail("%s: %r, optimum %r", what, got, best)
    elif "spat" not in op:
        tol = core.tol_for(attr)
        if op["start"] is not None and spec["algo"] != "sa" and \
                ref.objective(PAIRWISE, labels, attr) > ref.objective(PAIRWISE, op["start"], attr) + tol:
            core.fail("%s: worse than the start", what)
        if spec["algo"] == "azp" and not obj.zero:
            better = improving_move(labels, nb, PAIRWISE, attr, tol)
            if better:
                core.fail("%s: %r is no local optimum: area %d to region %r changes %r to %r", what,
                          labels, *better)


def expected(insts, who, spec, op, ctx, what):
    """Labels of a fresh instance, or None if they cannot be compared."""
    if spec["algo"] == "maxp" and spec["ls"] is None:
        return None         # its own local search is seeded during the first fit
    got = []
    shifts = (0,) if spec["algo"] in ("p_exact", "maxp_exact", "sa") else (0, 1, 2)
    for shift in shifts:
        other = fresh(insts, who, shift)
        random.seed(op["seed"])
        inp, _ = ctx.call(what + " (fresh)", fit, other, spec, op)
        got.append(inp.labels(other))
    if any(x != got[0] for x in got):
        ctx.tag("not comparable")
        return None
    return got[0]


def check(case, ctx):
    insts = case["insts"]
    ests = make(insts)
    used = [False] * len(insts)
    for k, op in enumerate(case["ops"]):
        who = op["who"]
        spec = insts[who]
        involved = [who] + ([spec["ls"]] if spec.get("ls") is not None else [])
        what = "fit %d (%s from %s)" % (k, spec["algo"], op["input"]["fmt"])
        if op["bad"]:
            ctx.rejects(what, lambda: fit(ests[who], spec, op))
            ctx.tag("rejected")
        else:
            want = expected(insts, who, spec, op, ctx, what) if any(used[i] for i in involved) else None
            random.seed(op["seed"])
            inp, obj = ctx.call(what, fit, ests[who], spec, op)
            labels = inp.labels(ests[who])
            judge(spec, op, inp, obj, labels, what)
            if want is not None:
                ctx.tag("compared")
                if labels != want:
                    core.fail("%s: %r, but %r on a fresh instance", what, labels, want)
            if any(used[i] for i in involved) and 1 < len(set(labels)) < inp.n:
                ctx.nontrivial = True
            ctx.tag(spec["algo"])
        for i in involved:
            used[i] = True


def check_skater(case, ctx):
    from libpysal import weights
    from region.skater.skater import Spanning_Forest
    est = Spanning_Forest()
    used = False
    for k, op in enumerate(case["ops"]):
        g = op["graph"]
        nb = core.nbrs(g)
        data = core.attr_array(op["attr"]).astype(float) if op["data"] else None

        def run(e):
            w = weights.W({i: sorted(nb[i]) for i in range(g["n"])}, id_order=list(range(g["n"])),
                          silence_warnings=True)
            e.fit(op["k"], w, data, quorum=op["quorum"], trace=op["trace"], islands=op["islands"])
            res = [np.array(e.current_labels_).tolist(), e.minimum_spanning_forest_.toarray().tolist()]
            if op["trace"]:
                res.append([np.array(l).tolist() for l, _ in e._trace])
            return res
        what = "SKATER fit %d" % k
        new = Spanning_Forest()
        comps = ref.components(range(g["n"]), nb)
        if len(comps) > 1 and min(map(len, comps)) < op["quorum"]:
            ctx.rejects(what, lambda: run(est))
            ctx.tag("rejected")
        else:
            got = ctx.call(what, run, est)
            want = ctx.call(what + " (fresh)", run, new)
            if got != want:
                core.fail("%s: %r, but %r on a fresh instance", what, got, want)
            if used and 1 < len(set(got[0])) < g["n"]:
                ctx.nontrivial = True
        used = True


PARTS = [
    {"name": "heuristics", "gen": g_heuristics, "check": check, "quick": 1600, "thorough": 24000},
    {"name": "exact", "gen": g_exact, "check": core.confirm(check), "quick": 480, "thorough": 6000},
    {"name": "max_p", "gen": g_maxp, "check": check, "quick": 800, "thorough": 12000},
    {"name": "skater", "gen": g_skater, "check": check_skater, "quick": 800, "thorough": 8000},
]
