"""P09: requests without a solution and malformed requests are rejected."""
import numpy as np

import core
import formats
import gen
import ref

ID = "P09"
RULE = ("A case is a lattice map, an estimator, an entry point (input format), optionally an earlier "
        "successful fit on the same instance, and one request that is wrong in exactly one way. It must "
        "be answered with an exception (ValueError for arguments the code checks) and leave labels_ as it "
        "was. Non-trivial: everything else about the request is valid, checked by the earlier fit, or the "
        "map has several components.")
ASSUMPTIONS = ["a request is wrong only in the listed ways, and the rest of it is valid"]

HEU = ["azp", "sa", "basic", "reactive"]
KINDS_P = ["too_many", "too_few", "nonpositive", "start_broken", "start_count", "start_two_maps",
           "neighbor_keys", "attr_missing", "start_missing", "attr_type", "contiguity", "column",
           "node_attr"]
KINDS_EXACT = ["too_many", "too_few", "nonpositive", "not_integer", "method", "solver", "metric",
               "neighbor_keys", "attr_missing", "attr_extra", "neighbors_type", "attr_type",
               "contiguity", "column", "node_attr"]
KINDS_MAXP = ["threshold", "threshold", "threshold", "attr_missing", "attr_extra", "spat_missing",
              "neighbor_keys", "neighbors_type", "attr_type", "spat_type", "contiguity", "column",
              "node_attr"]
FORMAT_OF = {"neighbor_keys": ["dict"], "attr_missing": ["dict", "nx"], "attr_extra": ["dict"],
             "spat_missing": ["dict", "nx"], "start_missing": ["dict", "nx"],
             "neighbors_type": ["dict"], "attr_type": ["nx", "gdf"], "spat_type": ["nx", "gdf"],
             "contiguity": ["gdf"], "column": ["gdf"], "node_attr": ["nx"]}


def base(s, kinds, min_n, max_n):
    kind = s.choice(kinds)
    for _ in range(6):      # "too few" needs several components
        m = formats.lattice(s, min_n, max_n)
        g = formats.graph_of(m)
        if kind not in ("too_few", "start_two_maps") or g["comps"] > 1:
            break
    else:
        kind = "too_many"
    n = len(m["cells"])
    inp = formats.input_spec(s, n)
    inp["contiguity"] = "rook"
    if kind in FORMAT_OF:
        inp["fmt"] = s.choice(FORMAT_OF[kind])
    if kind == "start_missing":
        inp["style"] |= 2       # a dict also for graphs
    if kind in ("attr_missing", "spat_missing"):
        inp["style"] |= 2
    if kind == "node_attr":
        inp["style"] &= ~2          # attributes by name
    attr = gen.attrs(s, n, 2, ["small", "ints", "dyadic"])
    return {"map": m, "input": inp, "attr": attr, "kind": kind, "prefit": s.chance(70),
            "pick": s.int(0, 99), "amount": s.choice([1, 2, 7])}, g


def broken_start(s, g, p):
    """p labels, at least one of them not contiguous; None if not found."""
    n, nb = g["n"], core.nbrs(g)
    for _ in range(8):
        labels = [s.int(0, p - 1) for _ in range(n)]
        if len(set(labels)) == p and ref.partition_problem(labels, n, nb, p):
            return labels
    return None


def g_heuristic(s):
    case, g = base(s, KINDS_P, 2, 8)
    n, lo = g["n"], g["comps"]
    p = case["p"] = s.int(lo, n)
    case["spec"] = gen.heuristic(s, HEU)
    if case["spec"]["algo"] == "sa":
        case["attr"] = gen.attrs(s, n, 2, ["big"])
    case["start"] = gen.partition(s, g, p) if s.bool() else None
    kind = case["kind"]
    bad = None
    if kind == "start_broken" and lo < n:
        q = s.int(lo, n - 1)
        bad = broken_start(s, g, q)
        case["bad_p"] = q
    elif kind == "start_two_maps":      # one region on two components
        q = s.int(lo, n)
        bad = gen.partition(s, g, q, any_names=False)
        comps = ref.components(range(n), core.nbrs(g))
        a, b = comps[0][0], comps[1][0]
        bad = [bad[a] if x == bad[b] else x for x in bad]
        case["bad_p"] = q - 1
    elif kind == "start_count":
        others = [q for q in range(lo, n + 1) if q != p]
        if others:
            bad = gen.partition(s, g, s.choice(others))
            case["bad_p"] = p
    case["bad_start"] = bad
    if kind.startswith("start") and kind != "start_missing" and bad is None:
        case["kind"] = "too_many"
    return case


def g_exact(s):
    case, g = base(s, KINDS_EXACT, 2, 4)
    case["p"] = s.int(g["comps"], g["n"])
    case["method"] = s.choice(["flow", "order", "tree"])
    return case


def g_maxp(max_n):
    def g_case(s):
        kinds = KINDS_MAXP + (["solver", "metric"] if max_n < 6 else ["max_it"])
        case, g = base(s, kinds, 1, max_n)
        n = g["n"]
        k = s.int(1, 2)
        spat = [[s.int(0, 9) for _ in range(k)] for _ in range(n)]
        comps = ref.components(range(n), core.nbrs(g))
        sums = [[sum(spat[i][e] for i in c) for c in comps] for e in range(k)]
        case.update(spat=spat, threshold=[s.int(0, min(v)) for v in sums],
                    seed=s.int(0, 1000),
                    local_search=s.choice([None, "azp", "basic", "reactive", "sa"]))
        if case["kind"] == "threshold":
            e = s.int(0, k - 1)
            bad = list(case["threshold"])
            # just out of reach of the poorest component, or of all together
            bad[e] = s.choice([min(sums[e]), min(sums[e]), sum(sums[e])]) + s.choice([.25, 1, 100])
            case["bad_threshold"] = bad
        if case["local_search"] == "sa":
            case["attr"] = gen.attrs(s, n, 1, ["big"])
        return case
    return g_case


BAD_WORDS = ["", "foo", 5, None, ["flow"]]
ANY = (Exception,)
VALUE = (ValueError,)


def drop(d, pick):
    key = sorted(d)[pick % len(d)]
    return {k: v for k, v in d.items() if k != key}


def spoil_input(case, inp, a, sp=None):
    """The common malformed inputs: (problem, attr, spat, keywords, exceptions)."""
    kind, pick = case["kind"], case["pick"]
    kw = {}
    problem = inp.problem
    exc = ANY
    strict = "spec" not in case         # the exact and max-p methods check dicts
    if kind == "neighbor_keys":
        problem = dict(problem)
        key = sorted(problem)[pick % len(problem)]
        problem[key] = list(problem[key]) + [("nowhere",)]
    elif kind == "attr_missing":
        a = drop(a, pick)
        exc = VALUE if strict and inp.fmt == "dict" else ANY
    elif kind == "spat_missing":
        sp = drop(sp, pick)
        exc = VALUE if strict and inp.fmt == "dict" else ANY
    elif kind == "attr_extra":
        a = dict(a)
        a[("nowhere",)] = next(iter(a.values()))
        exc = VALUE
    elif kind == "neighbors_type":
        problem = [list(v) for v in problem.values()]
        exc = VALUE
    elif kind in ("attr_type", "spat_type"):
        bad = [5, 2.5, None][pick % 3]
        if inp.fmt == "gdf":
            bad = [5, None, [1, 2]][pick % 3]
        if kind == "attr_type":
            a = bad
        else:
            sp = bad
        exc = VALUE
    elif kind == "contiguity":
        kw["contiguity"] = ["bishop", "", 5][pick % 3]
        exc = VALUE
    elif kind == "column":
        a = ["nowhere"] if pick % 2 else "nowhere"
    elif kind == "node_attr":       # by name, but some or all nodes have no such attribute
        names = [a] if isinstance(a, str) else list(a)
        if pick % 3 == 0:
            a = "nowhere"
        elif pick % 3 == 1:
            a = names + ["nowhere"]
        else:
            problem = problem.copy()
            for k in range(1 + pick % len(names)):
                node = list(problem)[(pick + k) % len(problem)]
                del problem.nodes[node][names[k]]
    return problem, a, sp, kw, exc


def labels_snapshot(est):
    lab = getattr(est, "labels_", None)
    return None if lab is None else [np.array(lab).tolist()]


def judge(case, ctx, what, est, request, exc):
    before = labels_snapshot(est)
    if case["prefit"] and before is None:
        core.fail("%s: no labels_ after a successful fit", what)
    ctx.rejects("%s: %s" % (what, case["kind"]), request, exc)
    if labels_snapshot(est) != before:
        core.fail("%s: %s: labels_ was %r and is %r after the rejected request", what, case["kind"],
                  before and before[0], np.asarray(est.labels_).tolist())
    ctx.tag(case["kind"], "fitted" if before else "fresh")
    ctx.nontrivial = case["prefit"] or formats.graph_of(case["map"])["comps"] > 1


def check_heuristic(case, ctx):
    spec, kind, p = case["spec"], case["kind"], case["p"]
    inp = formats.make_input(case["map"], case["input"])
    est = core.make_heuristic(spec)
    a = inp.table("attr", case["attr"])
    obj = core.make_objective({"kind": "pairwise", "metric": "manhattan"}, limit=10 ** 6)
    kw = dict(core.fit_kwargs(spec), objective_func=obj)
    start = inp.start(case["start"])
    if start is not None:
        kw["initial_labels"] = start
    what = "%s from %s" % (spec["algo"], inp.fmt)
    if case["prefit"]:
        ctx.call(what, inp.fit, est, a, p, **kw)
    problem, a, _, more, exc = spoil_input(case, inp, a)
    bad = formats.make_input(case["map"], case["input"])
    if problem is inp.problem:
        bad.problem = problem           # graph and frame attributes are there
    n, lo = inp.n, inp.graph["comps"]
    if kind in ("too_many", "too_few", "nonpositive"):
        p = {"too_many": n + case["amount"], "too_few": 1 + case["pick"] % max(1, lo - 1),
             "nonpositive": -(case["amount"] // 2)}[kind]
        exc = VALUE
    elif kind in ("start_broken", "start_count", "start_two_maps"):
        p = case["bad_p"]
        kw["initial_labels"] = bad.start(case["bad_start"])
        exc = VALUE
    elif kind == "start_missing":
        kw["initial_labels"] = drop(bad.start(case["start"] or list(range(n))), case["pick"])
    bad.problem = problem
    judge(case, ctx, what, est, lambda: bad.fit(est, a, p, **dict(kw, **more)), exc)
    ctx.tag(spec["algo"], inp.fmt)


def check_exact(case, ctx):
    from region.p_regions.exact import PRegionsExact
    kind, p = case["kind"], case["p"]
    inp = formats.make_input(case["map"], case["input"])
    est = PRegionsExact()
    a = inp.table("attr", case["attr"])
    kw = {"method": case["method"], "metric": "manhattan"}
    what = "PRegionsExact(%s) from %s" % (case["method"], inp.fmt)
    if case["prefit"]:
        ctx.call(what, inp.fit, est, a, p, **kw)
    problem, a, _, more, exc = spoil_input(case, inp, a)
    inp.problem = problem
    n, lo, pick = inp.n, inp.graph["comps"], case["pick"]
    if kind in ("too_many", "too_few", "nonpositive", "not_integer"):
        p = {"too_many": n + case["amount"], "too_few": 1 + pick % max(1, lo - 1),
             "nonpositive": -(case["amount"] // 2),
             "not_integer": [p + .5, str(p), None][pick % 3]}[kind]
        exc = VALUE
    elif kind in ("method", "solver", "metric"):
        bad = ([x for x in BAD_WORDS if x is not None] if kind == "metric" else BAD_WORDS)
        more[kind] = bad[pick % len(bad)]
        exc = VALUE
    judge(case, ctx, what, est, lambda: inp.fit(est, a, p, **dict(kw, **more)), exc)
    ctx.tag(inp.fmt)


def check_maxp(case, ctx, est, what, kw, exc_threshold):
    kind = case["kind"]
    inp = formats.make_input(case["map"], case["input"])
    a = inp.table("attr", case["attr"])
    sp = inp.table("spat", case["spat"])

    def thr(t):
        return t[0] if len(t) == 1 else np.array(t)
    what = "%s from %s" % (what, inp.fmt)
    if case["prefit"]:
        ctx.call(what, inp.fit, est, a, sp, thr(case["threshold"]), **kw)
    problem, a, sp, more, exc = spoil_input(case, inp, a, sp)
    inp.problem = problem
    t = case["threshold"]
    if kind == "threshold":
        t = case["bad_threshold"]
        exc = exc_threshold
    elif kind in ("solver", "metric"):
        bad = ([x for x in BAD_WORDS if x is not None] if kind == "metric" else BAD_WORDS)
        more[kind] = bad[case["pick"] % len(bad)]
        exc = VALUE
    elif kind == "max_it":
        more["max_it"] = -(case["amount"] // 2)
        exc = VALUE
    judge(case, ctx, what, est, lambda: inp.fit(est, a, sp, thr(t), **dict(kw, **more)), exc)
    ctx.tag(inp.fmt)


def check_maxp_exact(case, ctx):
    from region.max_p_regions.exact import MaxPRegionsExact
    check_maxp(case, ctx, MaxPRegionsExact(), "MaxPRegionsExact", {"metric": "manhattan"}, VALUE)


def check_maxp_heu(case, ctx):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    ls = case["local_search"]
    if ls is not None:
        ls = core.make_heuristic({
            "algo": ls, "seed": case["seed"], "init_temperature": 1, "max_iterations": 2,
            "sa_moves_term": 5, "nonmoving_steps_before_stop": 1, "k1": 1, "k2": 1,
            "repetitions_before_termination": 1, "tabu_length": 3})
    est = MaxPRegionsHeu(local_search=ls, random_state=case["seed"])
    obj = core.make_objective({"kind": "pairwise", "metric": "manhattan"}, limit=10 ** 6)
    check_maxp(case, ctx, est, "MaxPRegionsHeu", {"max_it": 3, "objective_func": obj}, ANY)


def g_param(s):
    return {"kind": s.choice(["cooling", "sa_moves_term", "max_iterations", "strategy", "temperature",
                              "metric", "observer", "solver", "find_cut", "score", "initial_n",
                              "divide"]),
            "value": s.int(0, 10 ** 6), "n": s.int(2, 7), "algo": s.choice(HEU)}


def check_param(case, ctx):
    """Search parameters and helpers, one bad value each."""
    from region import util
    from region.objective_function import ObjectiveFunctionCenter, ObjectiveFunctionPairwise
    from region.p_regions import azp, azp_util
    from region.skater.skater import Spanning_Forest
    kind, v, n = case["kind"], case["value"], case["n"]
    adj = core.adj_matrix({"n": n, "edges": [[i, i + 1] for i in range(n - 1)]})
    attr = np.arange(n, dtype=float).reshape(-1, 1)
    real = (v % 1000) / 7

    def sa(**kw):
        args = dict(init_temperature=1, max_iterations=2, sa_moves_term=2,
                    nonmoving_steps_before_stop=1, repetitions_before_termination=1)
        return azp.AZPSimulatedAnnealing(**dict(args, **kw))
    exc = VALUE
    if kind == "cooling":
        est = sa()
        est.fit_from_scipy_sparse_matrix(adj, attr, 2)
        before = np.array(est.labels_).tolist()
        for c in (0, 1, -real, 1 + real, float("nan")):
            ctx.rejects("cooling_factor=%r" % c, lambda: est.fit_from_scipy_sparse_matrix(
                adj, attr, 2, cooling_factor=c), exc)
        if np.array(est.labels_).tolist() != before:
            core.fail("labels_ changed by a rejected cooling factor")
    elif kind == "sa_moves_term":
        for t in (0, -1 - v, real + .5, "3", None):
            ctx.rejects("sa_moves_term=%r" % t, lambda: sa(sa_moves_term=t).fit_from_scipy_sparse_matrix(
                adj, attr, 2), exc)
    elif kind == "max_iterations":
        for t in (0, -1 - v):
            ctx.rejects("max_iterations=%r" % t, lambda: azp.AZPReactiveTabu(t, 1, 1), exc)
    elif kind == "strategy":
        for t in (5, "azp", azp_util.AllowMoveAZP, real):
            ctx.rejects("allow_move_strategy=%r" % (t,), lambda: azp.AZP(allow_move_strategy=t), exc)
    elif kind == "temperature":
        ctx.rejects("init_temperature=None", lambda: azp.AZPSimulatedAnnealing(), ANY)
    elif kind == "metric":
        for t in ("foo%d" % v, "", v, [1]):
            for what in (util.get_metric_function, ObjectiveFunctionPairwise, ObjectiveFunctionCenter):
                ctx.rejects("metric %r" % (t,), lambda: what(t), exc)
    elif kind == "observer":
        st = azp_util.AllowMoveAZPSimulatedAnnealing(1, 3)
        for t in (None, v, "foo"):
            ctx.rejects("observer %r" % (t,), lambda: st.register_move_made(t), exc)
            ctx.rejects("observer %r" % (t,), lambda: st.register_sa_moves_term(t), exc)
    elif kind == "solver":
        for t in ("foo%d" % v, "", v, None):
            ctx.rejects("solver %r" % (t,), lambda: util.check_solver(t), exc)
        for t in ("cbc", "CPLEX", "glpk", "Gurobi"):
            ctx.call("check_solver(%r)" % t, util.check_solver, t)
    elif kind == "find_cut":
        sf = Spanning_Forest()
        ctx.rejects("find_cut with labels only", lambda: sf.find_cut(adj, attr, labels=np.zeros(n)), exc)
        ctx.rejects("find_cut with target_label only", lambda: sf.find_cut(adj, attr, target_label=0), exc)
        ctx.rejects("make_cut of an impossible cut", lambda: sf.make_cut(0, 1, np.inf, MSF=adj), ANY)
    elif kind == "score":
        sf = Spanning_Forest()
        ctx.rejects("score before fit", lambda: sf.score(attr), exc)
        ctx.rejects("score with too few labels", lambda: sf.score(attr, np.zeros(n - 1)), ANY)
    elif kind == "initial_n":
        for p in (n + 1 + v % 5, 0, -1 - v % 5):
            ctx.rejects("generate_initial_sol(%d)" % p, lambda: list(util.generate_initial_sol(adj, p)), exc)
        two = core.adj_matrix({"n": n, "edges": []})
        ctx.rejects("generate_initial_sol below the components",
                    lambda: list(util.generate_initial_sol(two, n - 1)), exc)
        ctx.rejects("generate_initial_sol without areas",
                    lambda: list(util.generate_initial_sol(core.adj_matrix({"n": 0, "edges": []}), 1)), exc)
    elif kind == "divide":
        for p in (n + 1 + v % 5, 0, -1 - v % 5):
            ctx.rejects("_randomly_divide_connected_graph(%d)" % p,
                        lambda: util._randomly_divide_connected_graph(adj, p), ANY)
    ctx.nontrivial = True
    ctx.tag(kind)


def g_quorum(s):
    g = gen.graph(s, 2, 10, 3, disconnected=100)
    return {"graph": g, "attr": gen.attrs(s, g["n"], 2), "k": s.int(1, 5), "more": s.int(1, 3),
            "islands": s.choice(["ignore", "increase"]), "prefit": s.bool()}


def check_quorum(case, ctx):
    """A component of the map is below the quorum."""
    from libpysal import weights
    from region.skater.skater import Spanning_Forest
    g = case["graph"]
    nb = core.nbrs(g)
    w = weights.W({i: sorted(nb[i]) for i in range(g["n"])}, id_order=list(range(g["n"])),
                  silence_warnings=True)
    data = core.attr_array(case["attr"]).astype(float)
    est = Spanning_Forest()
    before = None
    if case["prefit"]:
        ctx.call("Spanning_Forest", est.fit, case["k"], w, data, islands=case["islands"])
        before = np.array(est.current_labels_).tolist()
    small = min(len(c) for c in ref.components(range(g["n"]), nb))
    ctx.rejects("quorum above the smallest component", lambda: est.fit(
        case["k"], w, data, quorum=small + case["more"], islands=case["islands"]), VALUE)
    after = np.array(est.current_labels_).tolist() if hasattr(est, "current_labels_") else None
    if after != before:
        core.fail("current_labels_ was %r and is %r after the rejected request", before, after)
    ctx.nontrivial = True
    ctx.tag("fitted" if before else "fresh")


PARTS = [
    {"name": "heuristics", "gen": g_heuristic, "check": check_heuristic, "quick": 2400, "thorough": 40000},
    {"name": "p_exact", "gen": g_exact, "check": core.confirm(check_exact), "quick": 1200, "thorough": 12000},
    {"name": "maxp_exact", "gen": g_maxp(4), "check": core.confirm(check_maxp_exact), "quick": 800, "thorough": 8000},
    {"name": "maxp_heu", "gen": g_maxp(7), "check": check_maxp_heu, "quick": 1600, "thorough": 20000},
    {"name": "parameters", "gen": g_param, "check": check_param, "quick": 400, "thorough": 2000},
    {"name": "skater_quorum", "gen": g_quorum, "check": check_quorum, "quick": 400, "thorough": 4000},
]
