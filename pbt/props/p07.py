"""P07: the threshold filter of the max-p heuristic."""
import random

import numpy as np

import core
import gen
import ref
from props.p05 import max_p_problem, narrow, threshold_problem
from props.p06 import fit_heu

ID = "P07"
ASSUMPTIONS = []
RULE = ("filter: a case is a labelling whose regions all reach the threshold, spatially extensive attributes "
        "of any sign (one to three columns), and a sequence of moves with the answers a wrapped strategy "
        "would give; each answer of the filter is compared with the definition, and the wrapped strategy "
        "must be asked exactly when the threshold permits the move. wrapped: the same around the real AZP "
        "strategy, whose objective value must follow the permitted moves only. local_optimum: all feasible "
        "threshold-preserving moves are tried on the result of MaxPRegionsHeu with its default local search. "
        "Non-trivial: both a permitted and a ruled-out move occurred (filter, wrapped); a feasible move exists and "
        "no tie was met (local_optimum).")


def g_filter(s):
    total = s.int(2, 10)
    k = s.int(1, 3)
    spat = [[s.int(-4, 8) if s.bool() else s.int(0, 6) for _ in range(k)] for _ in range(total)]
    dtype = narrow(s, spat) if s.chance(25) else None
    # the component under consideration: a subset of all areas
    comp = list(range(total))
    if s.chance(40):
        drop = s.int(0, total - 2)
        for _ in range(drop):
            comp.pop(s.int(0, len(comp) - 1))
    n_reg = s.int(1 if s.chance(10) else min(2, len(comp)), max(2, min(4, len(comp) - 1)))
    labels = [s.int(0, n_reg - 1) for _ in comp]
    labels = gen.rename(s, list(ref.canon(labels)))
    reg = ref.regions(labels)
    threshold = []
    for e in range(k):
        low = min(sum(spat[comp[i]][e] for i in areas) for areas in reg.values())
        threshold.append(low - (s.int(0, 4) if s.bool() else 0))
    moves = [[s.int(0, 99), s.int(0, 99), s.int(0, 1)] for _ in range(s.int(1, 12))]
    attr = [[s.int(0, 5)] for _ in range(total)]
    return {"spat": spat, "comp": comp, "labels": labels, "threshold": threshold,
            "moves": moves, "attr": attr, "scalar": k == 1 and s.bool(), "oned": k == 1 and s.bool(),
            "dtype": dtype}


def setup(case):
    spat = np.array(case["spat"], dtype=case.get("dtype"))
    threshold = np.array(case["threshold"])
    if len(case["threshold"]) == 1:
        if case["scalar"]:
            threshold = case["threshold"][0]
        if case["oned"]:
            spat = spat.reshape(-1)
    comp = np.array(case["comp"])
    attr = np.array(case["attr"])[comp]
    return spat, threshold, comp, attr


def permitted(case, lab, area, region):
    rows = [case["spat"][i] for i in case["comp"]]
    for e, t in enumerate(case["threshold"]):
        donor = sum(rows[i][e] for i in range(len(lab)) if lab[i] == lab[area] and i != area)
        rec = sum(rows[i][e] for i in range(len(lab)) if lab[i] == region) + rows[area][e]
        if donor < t or rec < t:
            return False
    return True


def moves_of(case, lab, pick):
    """Translate a drawn pair into a move which keeps the donor non-empty."""
    reg = ref.regions(lab)
    cands = [(a, r) for a in range(len(lab)) if len(reg[lab[a]]) > 1
             for r in sorted(reg) if r != lab[a]]
    return cands[(pick[0] * 100 + pick[1]) % len(cands)] if cands else None


def check_filter(case, ctx):
    from region.p_regions.azp_util import AllowMoveAZPMaxPRegions, AllowMoveStrategy

    class Scripted(AllowMoveStrategy):
        answer = True
        asked = 0
        started = 0

        def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
            self.started += 1
            super().start_new_component(initial_labels, attr, objective_func, comp_idx)

        def __call__(self, moving_area, new_region, labels):
            self.asked += 1
            self.last = (int(moving_area), np.asarray(new_region).item(), labels.tolist())
            return self.answer

    spat, threshold, comp, attr = setup(case)
    lab = list(case["labels"])
    inner = Scripted()
    flt = AllowMoveAZPMaxPRegions(spat, threshold, inner)
    arr = np.array(lab)
    ctx.call("start_new_component", flt.start_new_component, arr, attr,
             core.make_objective({"kind": "pairwise", "metric": "manhattan"}), comp)
    if inner.started != 1:
        core.fail("the wrapped strategy was started %d times for one component", inner.started)
    yes = no = 0
    for pick in case["moves"]:
        mv = moves_of(case, lab, pick)
        if mv is None:
            return
        area, region = mv
        inner.answer = bool(pick[2])
        inner.asked = 0
        got = ctx.call("filter", flt, area, arr.dtype.type(region), arr)
        ok = permitted(case, lab, area, region)
        if bool(got) != (ok and inner.answer):
            core.fail("moving area %d to region %r (labels %r) was %s although the threshold %s it and "
                      "the wrapped strategy says %r", area, region, lab,
                      "allowed" if got else "refused", "permits" if ok else "rules out", inner.answer)
        if bool(inner.asked) != ok:
            core.fail("the wrapped strategy was asked %d times about a move which the threshold %s",
                      inner.asked, "permits" if ok else "rules out")
        if ok and (inner.asked != 1 or inner.last != (area, region, lab)):
            core.fail("the wrapped strategy was asked about %r (%d times)", inner.last, inner.asked)
        if arr.tolist() != lab:
            core.fail("the filter changed the labels")
        yes, no = yes + ok, no + (not ok)
        if got:
            lab[area] = region
            arr[area] = region
    ctx.nontrivial = bool(yes and no)
    ctx.tag("yes" if yes else "", "no" if no else "")
    ctx.tag(case.get("dtype") or "")
    if any(x < 0 for i in case["comp"] for x in case["spat"][i]):
        ctx.tag("negative")


def check_wrapped(case, ctx):
    from region.p_regions.azp_util import AllowMoveAZP, AllowMoveAZPMaxPRegions
    spat, threshold, comp, attr = setup(case)
    rows = attr.tolist()
    spec = {"kind": "pairwise", "metric": "manhattan"}
    lab = list(case["labels"])
    inner = AllowMoveAZP()
    flt = AllowMoveAZPMaxPRegions(spat, threshold, inner)
    arr = np.array(lab)
    ctx.call("start_new_component", flt.start_new_component, arr, attr, core.make_objective(spec), comp)
    yes = no = 0
    for pick in case["moves"]:
        mv = moves_of(case, lab, pick)
        if mv is None:
            return
        area, region = mv
        before = ref.objective(spec, lab, rows)
        after = ref.objective(spec, ref.moved(lab, area, region), rows)
        ok = permitted(case, lab, area, region)
        got = bool(ctx.call("filter", flt, area, arr.dtype.type(region), arr))
        if got != (ok and after <= before):
            core.fail("moving area %d to region %r (labels %r, objective %r to %r) was %s; threshold %s",
                      area, region, lab, before, after, "allowed" if got else "refused",
                      "reached" if ok else "not reached")
        if got:
            lab[area] = region
            arr[area] = region
        want = after if got else before
        for strategy, what in ((inner, "wrapped strategy"), (flt, "filter")):
            val = float(np.asarray(strategy.objective_val).reshape(-1)[0])
            if abs(val - want) > 1e-9:
                core.fail("objective_val of the %s is %r, objective of the labels %r", what, val, want)
        yes, no = yes + ok, no + (not ok)
    ctx.nontrivial = bool(yes and no)


def g_opt(s):
    if s.chance(15):
        t = gen.TraceSource(random.Random(s.int(0, 2 ** 31)))
        prob = max_p_problem(t, 10, 25, max_cols=1, kinds=["big", "float"], disconnected=25)
    else:
        prob = max_p_problem(s, 3, 9, max_cols=2, kinds=["big", "float", "ints"], disconnected=20)
    return {"prob": prob, "local_search": None, "max_it": s.choice([1, 2, 5]), "seed": s.int(0, 10 ** 6),
            "obj": gen.objective(s, reductions=["sum"])}


def check_opt(case, ctx):
    prob, obj = case["prob"], case["obj"]
    nb, attr = core.nbrs(prob["graph"]), prob["attr"]
    rec = core.make_objective(obj, limit=4 * 10 ** 6)
    est = ctx.call("MaxPRegionsHeu", fit_heu, case, rec)
    labels = core.labels_of(est, prob["graph"]["n"])
    if rec.zero:
        ctx.tag("tie")
        return
    bad = ref.partition_problem(labels, len(attr), nb) or threshold_problem(labels, prob)
    if bad:
        core.fail("%s", bad)
    tol = core.tol_for(attr)
    base = ref.objective(obj, labels, attr)
    any_move = False
    for a, r in ref.feasible_moves(labels, nb):
        new = ref.moved(labels, a, r)
        if threshold_problem(new, prob):
            continue
        any_move = True
        v = ref.objective(obj, new, attr)
        if v < base - tol:
            core.fail("local search stopped at %r (objective %r), but moving area %d to region %r gives %r "
                      "and keeps the threshold", labels, base, a, r, v)
    ctx.nontrivial = any_move
    ctx.tag("evals>50" if rec.evals > 50 else "evals<=50")


PARTS = [
    {"name": "filter", "gen": g_filter, "check": check_filter, "quick": 6000, "thorough": 150000},
    {"name": "wrapped", "gen": g_filter, "check": check_wrapped, "quick": 4000, "thorough": 100000},
    {"name": "local_optimum", "gen": g_opt, "check": check_opt, "quick": 2000, "thorough": 30000},
]
