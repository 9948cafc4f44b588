"""P20: the basic tabu search replayed by a reference model."""
from collections import deque

import numpy as np

import core
import gen
import ref

ID = "P20"
RULE = ("A case is a connected map with attributes that make all objective values exact, a start, a tabu length "
        "and a repetition limit, and one or two fits on the same instance. The objective records the label "
        "arrays it is asked about; consecutive different ones are the moves, which a reference model (tabu list, "
        "visit counts, enumeration of all feasible moves) must allow, as must the final state. "
        "Non-trivial: at least two moves were made and a tabu move existed at some visited state.")
ASSUMPTIONS = ["every visited partition is evaluated at least once before the next move; runs for which "
               "consecutive recorded partitions differ in more than one area are not judged (counted as a tag)"]
EXACT = ["small", "ints", "two", "dyadic", "big", "const", "small"]


def exact_objective(s):
    """An objective function without rounding: pairwise, or a user's own."""
    if s.chance(25):
        return gen.own_objective(s)
    return {"kind": "pairwise", "metric": s.choice(["manhattan", "manhattan", "chebyshev_fn"])}


def g_case(s):
    prob = gen.p_problem(s, 3, 8, max_comp=1, max_cols=2, start=True, value_kinds=EXACT)
    if prob["p"] == 1:
        prob["p"] = 2
        prob["start"] = gen.partition(s, prob["graph"], 2)
    spec = {"algo": "basic", "seed": s.int(0, 10 ** 6),
            "tabu_length": s.choice([None, 0, 1, 2, 3, 4, 6, 10, 85]),
            "repetitions_before_termination": s.int(1, 5)}
    return {"prob": prob, "spec": spec, "obj": exact_objective(s),
            "again": gen.partition(s, prob["graph"], prob["p"]) if s.chance(30) else None}


def g_large(s):
    prob = gen.large_problem(s, 12, 24, max_comp=1, start=True, value_kinds=["small", "ints", "two", "big"])
    if prob["p"] == 1:
        prob["p"] = 3
        prob["start"] = gen.partition(s, prob["graph"], 3)
    return {"prob": prob, "obj": {"kind": "pairwise", "metric": "manhattan"}, "again": None,
            "spec": {"algo": "basic", "seed": s.int(0, 10 ** 6), "tabu_length": s.choice([None, 0, 1, 3, 10, 85]),
                     "repetitions_before_termination": s.int(1, 3)}}


def judge(c, start, log, final, ctx):
    prob, spec = c["prob"], c["spec"]
    nb, attr, n = core.nbrs(prob["graph"]), prob["attr"], prob["graph"]["n"]
    obj = c["obj"]
    states = [tuple(start)]
    for lab in [ev[1] for ev in log] + [tuple(final)]:
        if lab != states[-1]:
            states.append(lab)
    length, reps = spec["tabu_length"], spec["repetitions_before_termination"]
    tabu = deque([], length)
    visits = {}
    stop, unsure, saw_tabu = False, False, False
    values = {}

    def value(lab):
        if lab not in values:
            values[lab] = ref.objective(obj, lab, attr)
        return values[lab]

    for k, lab in enumerate(states):
        if visits.get(lab, 0) >= reps:
            stop = True
        visits[lab] = visits.get(lab, 0) + 1
        base = value(lab)
        moves = ref.feasible_moves(lab, nb)
        free, held = {}, {}
        for a, r in moves:
            diff = value(tuple(ref.moved(lab, a, r))) - base
            (held if (a, lab[a], r) in tabu else free)[a, r] = diff
        saw_tabu |= bool(held)
        best = min(free.values()) if free else float("inf")
        where = "state %d %r, tabu %r" % (k, lab, list(tabu))
        impossible = [m for m in tabu if lab[m[0]] == m[1] and (m[0], m[2]) not in moves]
        if k == len(states) - 1:
            if best < 0:
                core.fail("stopped at %s although %r improves by %r", where,
                          min(free, key=free.get), -best)
            if best == 0 and not stop and not unsure:
                core.fail("stopped at %s although an equivalent move is possible and no solution was seen %d times",
                          where, reps)
            if held and min(held.values()) < 0 and not impossible and not unsure:
                core.fail("stopped at %s although the tabu move %r improves by %r", where,
                          min(held, key=held.get), -min(held.values()))
            break
        nxt = states[k + 1]
        changed = [i for i in range(n) if nxt[i] != lab[i]]
        if len(changed) != 1:
            ctx.tag("unobservable")
            return False
        a = changed[0]
        r = nxt[a]
        diff = value(nxt) - base
        if (a, r) not in free and (a, r) not in held:
            core.fail("%s: area %d moved to region %r, which is no feasible move", where, a, r)
        if (a, r) in free:
            if diff > 0:
                core.fail("%s: area %d moved to region %r, which worsens the objective by %r", where, a, r, diff)
            if diff > best:
                core.fail("%s: move (%d, %r) changes the objective by %r, but %r by %r", where, a, r, diff,
                          min(free, key=free.get), best)
            if diff == 0 and stop and not unsure:
                core.fail("%s: wanders on along equivalent solutions after one was seen %d times", where, reps)
        else:
            if diff >= 0:
                core.fail("%s: tabu move (%d, %r), which does not improve the objective (%r)", where, a, r, diff)
            if best < 0 or best == 0 and not stop and not unsure:
                core.fail("%s: tabu move (%d, %r) although the permitted move %r changes the objective by %r",
                          where, a, r, min(free, key=free.get), best)
        if best > 0 and impossible:
            # drawing an impossible tabu move costs a visit that is not seen here
            unsure = True
        tabu.append((a, r, lab[a]))
    ctx.tag("moves=%d" % min(len(states) - 1, 6))
    if stop:
        ctx.tag("stop")
    return len(states) > 2 and saw_tabu


def check(c, ctx):
    prob, spec = c["prob"], c["spec"]
    n = prob["graph"]["n"]
    est = core.make_heuristic(spec)
    for start in [prob["start"]] + ([c["again"]] if c["again"] else []):
        log = []
        ctx.call("basic tabu fit", core.fit_p, est, spec, dict(prob, start=start),
                 core.make_objective(c["obj"], limit=10 ** 6, log=log))
        if judge(c, start, log, core.labels_of(est, n), ctx):
            ctx.nontrivial = True


PARTS = [
    {"name": "model", "gen": g_case, "check": check, "quick": 4000, "thorough": 120000},
    {"name": "model_large", "gen": g_large, "check": check, "quick": 80, "thorough": 2500},
]
