"""P21: the reactive tabu search against a model of steepest descent."""
import core
import gen
import ref
from props import p02
from props.p20 import exact_objective

ID = "P21"
RULE = ("A case is a map (connected or not) with attributes that make all objective values exact, starting labels, "
        "max_iterations, k1, k2 and one to three fits on the same instance. The model follows, from the start, "
        "every sequence of best improving moves (all of them where several tie) for up to max_iterations rounds, "
        "in each connected component; the labels returned must be one of its ends. "
        "Non-trivial: at least two moves were made in one component, or max_iterations cut the descent short.")
ASSUMPTIONS = []
EXACT = ["small", "ints", "two", "dyadic", "big", "big", "small"]
MAX_STATES = 400


def g_case(s):
    prob = gen.p_problem(s, 3, 9, max_comp=2, max_cols=2, start=True, value_kinds=EXACT)
    starts = [prob["start"]] + [gen.partition(s, prob["graph"], prob["p"])
                                for _ in range(s.choice([0, 0, 1, 2]))]
    return {"prob": prob, "starts": starts, "obj": exact_objective(s),
            "spec": {"algo": "reactive", "seed": s.int(0, 10 ** 6), "max_iterations": s.choice([30, 1, 2, 3, 4, 30]),
                     "k1": s.int(0, 3), "k2": s.int(0, 3)}}


def g_large(s):
    prob = gen.large_problem(s, 12, 26, max_comp=2, start=True, value_kinds=["big", "big", "ints"])
    obj = {"kind": "pairwise", "metric": "manhattan"} if s.bool() else gen.own_objective(s, ties=False)
    return {"prob": prob, "starts": [prob["start"]], "obj": obj,
            "spec": {"algo": "reactive", "seed": s.int(0, 10 ** 6), "max_iterations": s.choice([100, 1, 3, 6]),
                     "k1": s.int(0, 3), "k2": s.int(0, 3)}}


def g_slow(s):
    """Descents of a hundred moves and more."""
    case = p02.g_slow(s)
    return {"prob": case["prob"], "starts": [case["prob"]["start"]], "obj": {"kind": "pairwise", "metric": "manhattan"},
            "spec": {"algo": "reactive", "seed": s.int(0, 10 ** 6), "max_iterations": s.choice([1000, 1000, 50, 15]),
                     "k1": s.int(0, 3), "k2": s.int(0, 3)}}


def descend(nb, attr, obj, start, rounds):
    """All ends of steepest descents from start: ({end: moves made}, cut short),
    or None if there are too many ways."""
    vals = {}

    def value(lab):
        if lab not in vals:
            vals[lab] = ref.objective(obj, lab, attr)
        return vals[lab]

    ends, cut, states = {}, False, 1
    layer = {tuple(start)}
    for done in range(rounds + 1):
        after = set()
        for lab in layer:
            options = [tuple(ref.moved(lab, a, r)) for a, r in ref.feasible_moves(lab, nb)]
            best = min(map(value, options), default=float("inf"))
            if best < value(lab) and done < rounds:
                after.update(o for o in options if value(o) == best)
            else:
                ends[lab] = max(done, ends.get(lab, 0))
                cut |= best < value(lab)
        states += len(after)
        if states > MAX_STATES:
            return None
        layer = after
        if not layer:
            break
    return ends, cut


def check(c, ctx):
    prob, spec = c["prob"], c["spec"]
    g = prob["graph"]
    nb = core.nbrs(g)
    obj = c["obj"]
    est = core.make_heuristic(spec)
    for start in c["starts"]:
        ctx.call("reactive tabu fit", core.fit_p, est, spec, dict(prob, start=start),
                 core.make_objective(obj, limit=10 ** 6))
        labels = core.labels_of(est, g["n"])
        for comp in ref.components(range(g["n"]), nb):
            comp = sorted(comp)
            where = {a: i for i, a in enumerate(comp)}
            cnb = [[where[b] for b in nb[a]] for a in comp]
            cattr = [prob["attr"][a] for a in comp]
            cstart = [start[a] for a in comp]
            got = tuple(labels[a] for a in comp)
            res = descend(cnb, cattr, obj, cstart, spec["max_iterations"])
            if res is None:
                ctx.tag("too many ties")
                continue
            ends, cut = res
            if got not in ends:
                core.fail("from %r (areas %r, at most %d rounds) the best moves lead to %s, but the result is %r "
                          "(objective %r)", cstart, comp, spec["max_iterations"],
                          " or ".join("%r (%r)" % (list(e), ref.objective(obj, e, cattr)) for e in sorted(ends)[:3]),
                          list(got), ref.objective(obj, got, cattr))
            ctx.tag("moves=%d" % min(ends[got], 6), "cut" if cut else "")
            if ends[got] > 1 or cut:
                ctx.nontrivial = True


PARTS = [
    {"name": "descent", "gen": g_case, "check": check, "quick": 4000, "thorough": 120000},
    {"name": "descent_large", "gen": g_large, "check": check, "quick": 600, "thorough": 8000},
    {"name": "descent_slow", "gen": g_slow, "check": check, "quick": 80, "thorough": 1500},
]
