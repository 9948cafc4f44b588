"""P25: a move strategy of the user decides about exactly the legal moves."""
import random

import numpy as np

import core
import gen
import ref
from props.p05 import max_p_problem, spat_args, threshold_problem

ID = "P25"
RULE = ("A case is a problem and a move strategy as a user may write it: it answers at random (also permitting moves "
        "that worsen the objective), a limited number of times, and keeps the objective value of its moves. azp: "
        "everything AZP tells and asks the strategy is replayed against a reference model. maxp: the same for an AZP "
        "with that strategy as local search of MaxPRegionsHeu. fault: the strategy raises at some point; the "
        "exception must arrive, the earlier result must stay, and the next fit is judged as usual. Non-trivial: the "
        "strategy permitted and refused moves (fault: it raised after a permitted move).")
ASSUMPTIONS = []


class Fault(Exception):
    pass


def strategy(spec, obj, limit=3 * 10 ** 5):
    from region.p_regions.azp_util import AllowMoveStrategy

    class Own(AllowMoveStrategy):
        def __init__(self):
            self.log = []
            self.rnd = random.Random(spec["seed"])
            self.left = spec["budget"]
            self.fault = None

        def _event(self, *event):
            self.log.append(event)
            if len(self.log) > limit:
                raise core.Budget("the strategy was asked more than %d times" % limit)
            if self.fault is not None and len(self.log) > self.fault:
                self.fault = None
                raise Fault("raised by the user's strategy")

        def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
            super().start_new_component(initial_labels, attr, objective_func, comp_idx)
            self.rows = np.asarray(attr).tolist()
            labels = np.asarray(initial_labels).tolist()
            self.value = self.objective_val = ref.objective(obj, labels, self.rows)
            self._event("start", labels, self.rows, np.asarray(comp_idx).tolist(), objective_func)

        def __call__(self, moving_area, new_region, labels):
            before = np.asarray(labels).tolist()
            area, region = int(moving_area), np.asarray(new_region).item()
            after = list(before)
            after[area] = region
            new = ref.objective(obj, after, self.rows)
            yes = False
            if self.left > 0 and self.rnd.random() < spec["permit"]:
                yes = spec["worse"] or new <= self.value
            elif spec["improve"]:
                yes = new < self.value
            self._event("ask", area, region, before, yes)
            if yes:
                self.left -= 1
                self.value = self.objective_val = new
            return np.bool_(yes) if spec["numpy"] else yes

    return Own()


# -------------------------------------------------------------------- judging

class Component:
    """Replays what AZP asks about one component."""

    def __init__(self, labels, comp, nb, obj, attr, permitted):
        self.idx = comp
        at = {a: k for k, a in enumerate(comp)}
        self.near = [{at[b] for b in nb[a]} for a in comp]
        self.rows = [attr[a] for a in comp]
        self.obj = obj
        self.permitted = permitted
        self.labels = list(labels)
        self.regions = set(labels)
        self.yes = self.no = 0
        self.region, self.open, self.legal = None, set(), {}
        # where the passes may stand: regions which had no turn yet, those
        # among them without candidates meanwhile (whose turn may have gone
        # unnoticed), and the objective at the start of the pass
        self.passes = {self.new_pass()}

    def value(self):
        return ref.objective(self.obj, self.labels, self.rows)

    def candidates(self, region):
        key = tuple(self.labels)
        if key not in self.legal:
            moves = self.legal[key] = {}
            for a, r in ref.feasible_moves(self.labels, self.near):
                if self.permitted(self.idx, self.labels, a, r):
                    moves.setdefault(r, set()).add(a)
        return set(self.legal[key].get(region, ()))

    def empty(self):
        return frozenset(r for r in self.regions if not self.candidates(r))

    def new_pass(self):
        return frozenset(self.regions), self.empty(), self.value()

    def ended(self):
        """The objective values at the start of passes which may have ended."""
        return [before for todo, silent, before in self.passes if todo <= silent]

    def take(self, region):
        """The turn of another region."""
        passes = {(todo - {region}, silent, before) for todo, silent, before in self.passes if region in todo}
        if any(self.value() < before for before in self.ended()):
            todo, silent, before = self.new_pass()
            passes.add((todo - {region}, silent, before))
        if not passes:
            core.fail("the strategy was asked about a move into region %r, whose turn it was not; passes over the "
                      "regions so far: %s (labels %r)", region, self.describe(), self.labels)
        self.passes = passes
        self.region = region
        self.open = self.candidates(region)

    def describe(self):
        return " or ".join("no turn yet for %r, objective from %r to %r" % (sorted(todo - silent), before, self.value())
                           for todo, silent, before in sorted(self.passes, key=repr))

    def ask(self, area, region, labels, yes):
        if labels != self.labels:
            core.fail("the strategy was handed the labels %r; the permitted moves lead to %r", labels, self.labels)
        if not self.open:
            self.take(region)
        elif region != self.region:
            core.fail("the strategy was asked about region %r while the areas %r (labels %r) could still move into "
                      "region %r and were not offered", region, sorted(self.open), labels, self.region)
        if area not in self.open:
            legal = area in self.candidates(region)
            core.fail("the strategy was asked about moving area %r into region %r (labels %r), which is %s", area,
                      region, labels, "refused already" if legal else "not a legal move")
        if yes:
            self.yes += 1
            self.labels[area] = region
            self.open = self.candidates(region)
        else:
            self.no += 1
            self.open.discard(area)
        if not self.open:
            empty = self.empty()
            self.passes = {(todo, silent | (todo & empty), before) for todo, silent, before in self.passes}

    def finish(self):
        if len(self.regions) == 1:
            return
        if self.open:
            core.fail("the search ended although the areas %r could move into region %r (labels %r) and the strategy "
                      "was not asked", sorted(self.open), self.region, self.labels)
        now = self.value()
        idle = len(self.empty()) == len(self.regions)       # a further pass would not ask anything
        if not any(now >= before or idle for before in self.ended()):
            core.fail("the search ended too early; passes over the regions so far: %s (labels %r)", self.describe(),
                      self.labels)


def replay(log, prob, obj, permitted, objective=None):
    """[(start, labels, yes, no)] of the searches in the log."""
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    comps = {tuple(sorted(c)) for c in ref.components(range(n), nb)}
    todo, out, cur, start, labels, counts = set(), [], None, None, None, [0, 0]

    def close():
        cur.finish()
        counts[0] += cur.yes
        counts[1] += cur.no
        for k, a in enumerate(cur.idx):
            labels[a] = cur.labels[k]
        if not todo:
            out.append((list(start), list(labels), counts[0], counts[1]))

    for event in log:
        if event[0] == "ask":
            if cur is None:
                core.fail("the strategy was asked before it was told about a component")
            cur.ask(*event[1:])
            continue
        _, first, rows, comp, given = event
        if cur is not None:
            close()
        if not todo:
            todo, start, labels, counts = set(comps), [None] * n, [None] * n, [0, 0]
        if tuple(comp) not in todo:
            core.fail("the strategy was told about the areas %r; the components not searched yet are %r", comp,
                      sorted(todo))
        todo.discard(tuple(comp))
        if len(first) != len(comp) or rows != [list(map(float, prob["attr"][a])) for a in comp] and \
                rows != [prob["attr"][a] for a in comp]:
            core.fail("for the areas %r the strategy was given the labels %r and the attributes %r", comp, first, rows)
        if objective is not None and given is not objective:
            core.fail("the strategy was given the objective function %r instead of %r", given, objective)
        for k, a in enumerate(comp):
            start[a] = first[k]
        cur = Component(first, comp, nb, obj, prob["attr"], permitted)
    if cur is None:
        core.fail("the strategy was not told about any component")
    if todo:
        core.fail("the strategy was not told about the components %r", sorted(todo))
    close()
    return out


def always(idx, labels, area, region):
    return True


def by_threshold(prob):
    spat, threshold = prob["spat"], prob["threshold"]

    def ok(idx, labels, area, region):
        for e, t in enumerate(threshold):
            for r, new in ((labels[area], None), (region, region)):
                tot = sum(spat[idx[i]][e] for i, x in enumerate(labels) if (new if i == area else x) == r)
                if tot < t:
                    return False
        return True
    return ok


# ---------------------------------------------------------------------- cases

def own_strategy(s):
    return {"seed": s.int(0, 10 ** 6), "permit": s.choice([0.1, 0.3, 0.6]), "budget": s.choice([1, 3, 8, 25]),
            "worse": s.chance(75), "improve": s.chance(60), "numpy": s.chance(30)}


def obj_spec(s):
    if s.chance(40):
        return gen.own_objective(s)
    return {"kind": "pairwise", "metric": s.choice(["manhattan", "chebyshev_fn"])}


KINDS = ["small", "ints", "two", "big"]


def g_azp(s):
    return {"prob": gen.p_problem(s, 4, 12, max_comp=3, max_cols=2, value_kinds=KINDS, disconnected=20),
            "obj": obj_spec(s), "strategy": own_strategy(s), "seed": s.int(0, 10 ** 6),
            "entry": s.choice(["matrix", "w", "dict"])}


def g_maxp(s):
    prob = max_p_problem(s, 5, 12, max_cols=2, kinds=KINDS, disconnected=15,
                         shapes=["grid", "extra", "tree", "gridqueen"])
    if s.chance(70):        # some slack, or nothing can move
        prob["spat"] = [[x + s.int(0, 3) for x in row] for row in prob["spat"]]
        prob.pop("dtype", None)
        prob["threshold"] = [min(t, 4) for t in prob["threshold"]]
    return {"prob": prob,
            "obj": obj_spec(s), "strategy": own_strategy(s), "seed": s.int(0, 10 ** 6),
            "max_it": s.choice([1, 2, 4])}


def g_fault(s):
    if s.chance(60):
        case = dict(g_azp(s), kind="azp")
    else:
        case = dict(g_maxp(s), kind="maxp")
    case["fault"] = s.choice([0, 1, 2, 3, 5, 8, 13])
    case["first"] = s.bool()
    return case


def fit_azp(case, est, objective):
    prob = case["prob"]
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    attr = core.attr_array(prob["attr"])
    start = prob["start"]
    if case["entry"] == "matrix":
        est.fit(core.adj_matrix(prob["graph"]), attr, prob["p"],
                initial_labels=None if start is None else core.labels_array(start), objective_func=objective)
    elif case["entry"] == "w":
        from libpysal import weights
        est.fit_from_w(weights.W({i: sorted(nb[i]) for i in range(n)}, id_order=list(range(n)),
                                 silence_warnings=True), attr, prob["p"],
                       initial_labels=None if start is None else core.labels_array(start), objective_func=objective)
    else:
        est.fit_from_dict({i: nb[i] for i in range(n)}, dict(enumerate(attr)), prob["p"],
                          initial_labels=None if start is None else dict(enumerate(start)), objective_func=objective)


def judge_azp(case, strat, est, objective):
    prob = case["prob"]
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    runs = replay(strat.log, prob, case["obj"], always, objective)
    if len(runs) != 1:
        core.fail("AZP searched %d times in one fit", len(runs))
    start, labels, yes, no = runs[0]
    if prob["start"] is not None and start != prob["start"]:
        core.fail("the strategy was told the labels %r; AZP was given %r", start, prob["start"])
    bad = ref.partition_problem(start, n, nb, prob["p"])
    if bad:
        core.fail("the search started from an invalid partition: %s (labels %r)", bad, start)
    got = core.labels_of(est, n)
    if got != labels:
        core.fail("the labels are %r; the permitted moves lead to %r", got, labels)
    return yes, no


def new_azp(case, strat):
    from region.p_regions.azp import AZP
    return AZP(allow_move_strategy=strat, random_state=case["seed"])


def check_azp(case, ctx):
    strat = strategy(case["strategy"], case["obj"])
    est = new_azp(case, strat)
    objective = core.make_objective(case["obj"])
    ctx.call("AZP", fit_azp, case, est, objective)
    yes, no = judge_azp(case, strat, est, objective)
    ctx.nontrivial = yes > 0 and no > 0
    ctx.tag("permitted:%s" % (yes if yes < 3 else "3+"))


def fit_maxp(case, est, objective):
    prob = case["prob"]
    spat, threshold = spat_args(prob)
    est.fit(core.adj_matrix(prob["graph"]), core.attr_array(prob["attr"]), spat, threshold, max_it=case["max_it"],
            objective_func=objective)


def judge_maxp(case, strat, est, objective):
    prob = case["prob"]
    n, nb = prob["graph"]["n"], core.nbrs(prob["graph"])
    runs = replay(strat.log, prob, case["obj"], by_threshold(prob), objective)
    got = core.labels_of(est, n)
    best = min(ref.objective(case["obj"], labels, prob["attr"]) for _, labels, _, _ in runs)
    for start, labels, _, _ in runs:
        for what, x in (("start", start), ("end", labels)):
            bad = ref.partition_problem(x, n, nb) or threshold_problem(x, prob)
            if bad:
                core.fail("%s of a local search: %s (labels %r)", what, bad, x)
    mine = [r for r in runs if ref.canon(r[1]) == ref.canon(got)]
    if not mine:
        core.fail("the labels are %r; the permitted moves lead to %r", got, [r[1] for r in runs][:5])
    if ref.objective(case["obj"], got, prob["attr"]) > best:
        core.fail("the labels %r are not the best of the searches' results %r", got, [r[1] for r in runs][:5])
    return sum(r[2] for r in runs), sum(r[3] for r in runs)


def new_maxp(case, ls):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    return MaxPRegionsHeu(local_search=ls, random_state=case["seed"])


def check_maxp(case, ctx):
    strat = strategy(case["strategy"], case["obj"])
    est = new_maxp(case, new_azp(case, strat))
    objective = core.make_objective(case["obj"])
    ctx.call("MaxPRegionsHeu", fit_maxp, case, est, objective)
    yes, no = judge_maxp(case, strat, est, objective)
    ctx.nontrivial = yes > 0 and no > 0
    ctx.tag("permitted:%s" % (yes if yes < 3 else "3+"))


def check_fault(case, ctx):
    strat = strategy(case["strategy"], case["obj"])
    ls = est = new_azp(case, strat)
    objective = core.make_objective(case["obj"])
    fit, judge = fit_azp, judge_azp
    if case["kind"] == "maxp":
        est = new_maxp(case, ls)
        fit, judge = fit_maxp, judge_maxp
    earlier = None
    if case["first"]:
        ctx.call("fit", fit, case, est, objective)
        earlier = core.labels_of(est, case["prob"]["graph"]["n"])
        strat.left = case["strategy"]["budget"]
    strat.log.clear()
    strat.fault = case["fault"]
    try:
        fit(case, est, objective)
    except Fault:
        pass
    else:
        if strat.fault is None:
            core.fail("the exception raised by the strategy did not arrive")
        ctx.tag("no fault")
        strat.fault = None
        judge(case, strat, est, objective)
        return
    now = getattr(est, "labels_", None)
    now = None if now is None else np.asarray(now).tolist()
    if now != earlier:
        core.fail("after an exception in the strategy labels_ is %r; before it was %r", now, earlier)
    ctx.nontrivial = any(e[0] == "ask" and e[4] for e in strat.log[:-1])
    strat.log.clear()
    strat.left = case["strategy"]["budget"]
    ctx.call("fit after an exception", fit, case, est, objective)
    judge(case, strat, est, objective)
    if case["kind"] == "maxp":
        # the local search of its own knows no threshold
        prob = dict(case["prob"], start=core.labels_of(est, case["prob"]["graph"]["n"]))
        prob["p"] = len(set(prob["start"]))
        alone = dict(case, prob=prob, entry="matrix")
        strat.log.clear()
        ctx.call("AZP", fit_azp, alone, ls, objective)
        judge_azp(alone, strat, ls, objective)
    ctx.tag(case["kind"])


PARTS = [
    {"name": "azp", "gen": g_azp, "check": check_azp, "quick": 4000, "thorough": 200000},
    {"name": "maxp", "gen": g_maxp, "check": check_maxp, "quick": 2000, "thorough": 80000},
    {"name": "fault", "gen": g_fault, "check": check_fault, "quick": 1600, "thorough": 60000},
]
