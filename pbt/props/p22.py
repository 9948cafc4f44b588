"""P22: MaxPRegionsHeu builds regions greedily, keeps the best and polishes
them with the configured local search."""
import inspect

import numpy as np

import core
import gen
import ref
from props.p05 import max_p_problem, spat_args, threshold_problem

ID = "P22"
RULE = ("A case is a feasible max-p problem with exactly representable attributes, a metric, max_it, a seed and a "
        "local search that records the partitions it is given and returns. All outcomes of the documented greedy "
        "construction and their probabilities are enumerated; the recorded starting partitions must be among them, "
        "their number of regions must be the best of the constructions, and the result must be the best partition "
        "the local search returned. spread: all likely outcomes of one construction must occur among 120 "
        "seeds. Non-trivial: the outcomes differ, or the result has more than one region and fewer than areas.")
ASSUMPTIONS = ["statistical bounds at a probability below 1e-12 (best number of regions) and 1e-9 (spread) per case"]
METRICS = ["manhattan", "manhattan", "chebyshev_fn", "sqeuclidean_fn"]
DEFAULT_MAX_IT = 10     # as documented
ALGOS = ["azp", "basic", "reactive", "keep", "worsen"]


# ------------------------------------------------------------ reference model

def grown(n, nb, spat, threshold, d, limit=6000):
    """{(regions, enclaves): probability} of the construction: regions grow
    from a random unassigned area by the least dissimilar unassigned neighbour
    until they reach the threshold.  None if there are too many states."""
    def reaches(areas):
        return all(sum(spat[i][e] for i in areas) >= t for e, t in enumerate(threshold))

    level = {(frozenset(range(n)), frozenset(), frozenset()): 1.0}
    done = {}
    seen = 0
    while level:
        biggest = max(len(s[0]) for s in level)
        nxt = {}
        for state, prob in level.items():
            free, regs, encl = state
            if not free:
                done[regs, encl] = done.get((regs, encl), 0) + prob
                continue
            if len(free) < biggest:
                nxt[state] = nxt.get(state, 0) + prob
                continue
            seen += 1
            if seen > limit:
                return None
            for area in free:
                front = {frozenset([area]): prob / len(free)}
                while front:
                    ahead = {}
                    for reg, q in front.items():
                        rest = free - reg
                        if reaches(reg):
                            s = (rest, regs | {reg}, encl)
                            nxt[s] = nxt.get(s, 0) + q
                            continue
                        cand = {b for a in reg for b in nb[a]} & rest
                        if not cand:
                            s = (rest, regs, encl | reg)
                            nxt[s] = nxt.get(s, 0) + q
                            continue
                        cost = {c: sum(d[c][a] for a in reg) for c in cand}
                        best = [c for c in cand if cost[c] == min(cost.values())]
                        for c in best:
                            key = reg | {c}
                            ahead[key] = ahead.get(key, 0) + q / len(best)
                    front = ahead
        level = nxt
    return done


def completed(regs, encl, nb, d, limit=6000):
    """{partition: probability} of assigning the enclaves: a random one that
    borders a region joins the least dissimilar region it borders."""
    level = {(regs, encl): 1.0}
    done = {}
    seen = 0
    while level:
        nxt = {}
        for (regs, encl), prob in level.items():
            if not encl:
                done[regs] = done.get(regs, 0) + prob
                continue
            seen += 1
            if seen > limit:
                return None
            border = [a for a in encl if nb[a] - encl]
            for a in border:
                cost = {r: sum(d[a][i] for i in r) for r in regs if r & nb[a]}
                best = [r for r in cost if cost[r] == min(cost.values())]
                for r in best:
                    s = ((regs - {r}) | {r | {a}}, encl - {a})
                    nxt[s] = nxt.get(s, 0) + prob / len(border) / len(best)
        level = nxt
    return done


def outcomes(prob, metric, limit=6000):
    """({number of regions: probability}, {partition: probability}) of one
    construction."""
    g = prob["graph"]
    n, nb = g["n"], core.nbrs(g)
    d = [[ref.dist(metric, a, b) for b in prob["attr"]] for a in prob["attr"]]
    done = grown(n, nb, prob["spat"], prob["threshold"], d, limit)
    if done is None:
        return None
    sizes, parts = {}, {}
    for (regs, encl), q in done.items():
        sizes[len(regs)] = sizes.get(len(regs), 0) + q
        fin = completed(regs, encl, nb, d, limit)
        if fin is None:
            return None
        for part, r in fin.items():
            labels = [0] * n
            for i, areas in enumerate(part):
                for a in areas:
                    labels[a] = i
            key = ref.canon(labels)
            parts[key] = parts.get(key, 0) + q * r
    return sizes, parts


# ------------------------------------------------------- recording searches

def recording(spec, log, prob):
    """The local search of the spec, which appends (start, number of regions,
    result) of each fit to the log.  "keep" returns what it is given,
    "worsen" makes a random valid partition of it."""
    from region.p_regions.azp import AZP
    algo = spec["algo"]
    est = AZP(random_state=spec["seed"]) if algo in ("keep", "worsen") else core.make_heuristic(spec)
    cls = type(est)
    nb = core.nbrs(prob["graph"])
    busy = []

    def neighbour(labels):
        """Another partition which is valid as well, if there is one."""
        moves = [m for m in ref.feasible_moves(labels, nb)
                 if threshold_problem(ref.moved(labels, *m), prob) is None]
        if not moves:
            return labels
        return ref.moved(labels, *moves[(len(log) * 7 + spec["seed"]) % len(moves)])

    def wrap(name):
        orig = getattr(cls, name)
        sig = inspect.signature(orig)

        def fit(self, *args, **kwargs):
            if busy:
                return orig(self, *args, **kwargs)
            bound = sig.bind(self, *args, **kwargs).arguments
            start = bound.get("initial_labels")
            start = None if start is None else [x.item() for x in np.asarray(start)]
            if algo in ("keep", "worsen"):
                if start is None:
                    core.fail("the local search was not given the constructed partition")
                self.labels_ = np.array(neighbour(list(start)) if algo == "worsen" else start)
            else:
                busy.append(1)
                try:
                    orig(self, *args, **kwargs)
                finally:
                    busy.pop()
            log.append((start, int(bound["n_regions"]), [x.item() for x in np.asarray(self.labels_)]))
        return fit

    names = [x for x in dir(cls) if x == "fit" or x.startswith("fit_from")]
    est.__class__ = type("Recording" + cls.__name__, (cls,), {x: wrap(x) for x in names})
    return est


def fit(case, log, seed=None):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    prob = case["prob"]
    spec = case["local_search"]
    ls = recording(spec, log, prob)
    est = MaxPRegionsHeu(local_search=ls, random_state=case["seed"] if seed is None else seed)
    spat, threshold = spat_args(prob)
    attr = core.attr_array(prob["attr"])
    kw = {"objective_func": core.make_objective(case["obj"], limit=4 * 10 ** 6)}
    if case["max_it"] is not None:
        kw["max_it"] = case["max_it"]
    entry = case.get("entry", "matrix")
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    if entry == "matrix":
        est.fit(core.adj_matrix(prob["graph"]), attr, spat, threshold, **kw)
    elif entry == "w":
        from libpysal import weights
        est.fit_from_w(weights.W({i: sorted(nb[i]) for i in range(n)}, id_order=list(range(n)),
                                 silence_warnings=True), attr, spat, threshold, **kw)
    elif entry == "dict":
        est.fit_from_dict({i: nb[i] for i in range(n)}, dict(enumerate(attr)), dict(enumerate(spat)),
                          threshold, **kw)
    else:
        import networkx as nx
        graph = nx.Graph()
        graph.add_nodes_from(range(n))
        graph.add_edges_from(prob["graph"]["edges"])
        est.fit_from_networkx(graph, dict(enumerate(attr)), dict(enumerate(spat)), threshold, **kw)
    return est


# ---------------------------------------------------------------------- cases

def problem(s, min_n, max_n, disconnected=20, shapes=None):
    prob = max_p_problem(s, min_n, max_n, max_cols=2, kinds=["small", "ints", "two", "big"],
                         disconnected=disconnected, shapes=shapes)
    return prob


def obj_spec(s):
    obj = gen.objective(s, metrics=METRICS, reductions=["sum"], own=15)
    return obj


def ls_spec(s, algos):
    algo = s.choice(algos)
    if algo in ("keep", "worsen"):
        return {"algo": algo, "seed": s.int(0, 1000)}
    return gen.heuristic(s, [algo])


def g_case(s):
    return {"prob": problem(s, 2, 7), "local_search": ls_spec(s, ALGOS), "obj": obj_spec(s),
            "max_it": s.choice([1, 2, 4, 10, 30, None]), "seed": s.int(0, 10 ** 6),
            "entry": s.choice(["matrix", "w", "dict", "nx"])}


def g_spread(s):
    return {"prob": problem(s, 2, 6, 10), "local_search": {"algo": "keep", "seed": 0}, "obj": obj_spec(s),
            "max_it": 1, "seed": s.int(0, 10 ** 6)}


def g_large(s):
    import random
    t = gen.TraceSource(random.Random(s.int(0, 2 ** 31)))
    return {"prob": problem(t, 10, 30, 30, ["grid", "extra", "tree", "gridqueen"]),
            "local_search": ls_spec(s, ALGOS), "obj": {"kind": "pairwise", "metric": "manhattan"},
            "max_it": s.choice([1, 2, 5]), "seed": s.int(0, 10 ** 6)}


def judge_fit(case, ctx, log, est):
    """What must hold whatever the construction is; returns the partition's
    number of regions."""
    prob, attr, obj = case["prob"], case["prob"]["attr"], case["obj"]
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    labels = core.labels_of(est, n)
    if not log:
        core.fail("the configured local search was never used")
    max_it = case["max_it"] or DEFAULT_MAX_IT
    if len(log) > max_it:
        core.fail("the local search was used %d times with max_it=%r", len(log), case["max_it"])
    p = len(set(labels))
    for start, n_regions, result in log:
        if start is None:
            core.fail("the local search was not given the constructed partition")
        bad = ref.partition_problem(start, n, nb) or threshold_problem(start, prob)
        if bad:
            core.fail("the local search was given an invalid partition: %s", bad)
        if len(set(start)) != p or n_regions != p:
            core.fail("the local search was given %r and asked for %d regions; the result has %d",
                      start, n_regions, p)
    tol = core.tol_for(attr)
    values = [ref.objective(obj, r, attr) for _, _, r in log]
    mine = ref.objective(obj, labels, attr)
    if ref.canon(labels) not in {ref.canon(r) for _, _, r in log}:
        core.fail("the result %r is none of the partitions the local search returned: %r",
                  labels, [r for _, _, r in log][:5])
    if mine > min(values) + tol:
        core.fail("the result's objective is %r although the local search also found %r", mine, min(values))
    if len(set(values)) > 1:
        ctx.tag("choice")
    return p


def check(case, ctx):
    prob = case["prob"]
    log = []
    est = ctx.call("MaxPRegionsHeu", fit, case, log)
    p = judge_fit(case, ctx, log, est)
    ctx.tag(case["local_search"]["algo"])
    ctx.nontrivial = 1 < p < prob["graph"]["n"]
    res = outcomes(prob, case["obj"]["metric"])
    if res is None:
        ctx.tag("not enumerated")
        return
    sizes, parts = res
    for start, _, _ in log:
        if ref.canon(start) not in parts:
            core.fail("the local search started from %r, which the greedy construction does not produce", start)
    max_it = case["max_it"] or DEFAULT_MAX_IT
    if len(sizes) == 1 and len(log) != max_it:
        core.fail("every construction has %d regions, but only %d of %d were handed to the local search",
                  p, len(log), max_it)
    luck = sum(q for k, q in sizes.items() if k <= p) ** (case["max_it"] or DEFAULT_MAX_IT)
    if luck < 1e-12:
        core.fail("the best of %d constructions had %d regions, which happens with probability %.1e "
                  "(chances of one construction: %s)", case["max_it"] or DEFAULT_MAX_IT, p, luck,
                  ", ".join("%d regions %.3f" % x for x in sorted(sizes.items())))
    ctx.nontrivial = ctx.nontrivial or len(parts) > 1
    if len(sizes) > 1:
        ctx.tag("sizes differ")


def check_spread(case, ctx):
    res = outcomes(case["prob"], case["obj"]["metric"])
    if res is None:
        ctx.tag("not enumerated")
        return
    seeds = 120
    got = set()
    for i in range(seeds):
        log = []
        est = ctx.call("MaxPRegionsHeu", fit, case, log, seed=case["seed"] + i)
        judge_fit(case, ctx, log, est)
        got.add(ref.canon(log[0][0]))
    for part, q in res[1].items():
        if part not in got and (1 - q) ** seeds < 1e-9:
            core.fail("%d constructions (random_state %d...) never gave %r, whose probability is %.3f",
                      seeds, case["seed"], list(part), q)
    likely = sum((1 - q) ** seeds < 1e-9 for q in res[1].values())
    ctx.nontrivial = likely > 1
    ctx.tag("likely>2" if likely > 2 else "")


def check_large(case, ctx):
    log = []
    est = ctx.call("MaxPRegionsHeu", fit, case, log)
    p = judge_fit(case, ctx, log, est)
    ctx.nontrivial = 1 < p < case["prob"]["graph"]["n"]


PARTS = [
    {"name": "model", "gen": g_case, "check": check, "quick": 3000, "thorough": 40000},
    {"name": "large", "gen": g_large, "check": check_large, "quick": 200, "thorough": 2400},
    {"name": "spread", "gen": g_spread, "check": check_spread, "quick": 400, "thorough": 5000},
]
