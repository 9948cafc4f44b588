"""P03: objective value and update()."""
import random

import numpy as np

import core
import gen
import ref

ID = "P03"
RULE = ("A case is a label array (any distinct label values, contiguity irrelevant), an attribute table, "
        "an objective and the dtype of the labels; value compares the call with the reference, update "
        "compares every possible move with the difference of two reference values and checks that no "
        "argument was changed. Non-trivial: at least two regions, one of them with two or more areas "
        "that differ in their attributes.")
ASSUMPTIONS = ["values compared up to rounding",
               "callable metrics are vectorised (known finding: scalar-valued callables)",
               "with metric=None, both the coded manhattan and the documented euclidean distance are accepted "
               "(known finding)"]

METRICS = ["manhattan", "euclidean", "cityblock", "l1", "l2", "chebyshev_fn", "sqeuclidean_fn"]


def g_case(s):
    n = s.int(1, 10)
    k = s.int(1, max(1, n))
    labels = [s.int(0, k - 1) for _ in range(n)]
    used = sorted(set(labels))
    how = s.int(0, 4)
    if how == 0:
        names = used
    elif how == 1:
        names = s.sample(0, 60, len(used))
    elif how == 2:
        names = [x - 5 for x in s.sample(0, 30, len(used))]
    elif how == 3:
        names = s.perm(len(used))
    else:       # beyond 32 bits, alike in their lower halves
        names = [x // 2 + (x % 2 << 32) for x in s.sample(0, 2 * len(used), len(used))]
    ren = dict(zip(used, names))
    labels = [ren[l] for l in labels]
    kind = s.choice(gen.VALUE_KINDS)
    cols = s.int(1, 4)
    attr = [[gen.value(s, kind) for _ in range(cols)] for _ in range(n)]
    if s.chance(15):
        obj = {"kind": "pairwise", "metric": "cosine"}
        attr = [[abs(x) + 1 for x in row] for row in attr]
    elif s.bool():
        obj = {"kind": "pairwise", "metric": s.choice(METRICS)}
    else:
        obj = {"kind": "center", "metric": s.choice(METRICS),
               "center": s.choice(["mean", "median", "max"]),
               "reduction": s.choice(["sum", "max", "mean"])}
    return {"labels": labels, "attr": attr, "obj": obj,
            "dtype": s.choice(["int64", "int32" if how < 4 else "float64", "float64", "str"]),
            "fortran": s.chance(20)}


def nontrivial(case):
    reg = ref.regions(case["labels"])
    return len(reg) > 1 and any(
        len({tuple(case["attr"][i]) for i in areas}) > 1 for areas in reg.values())


def tolerance(case):
    metric = case["obj"]["metric"]
    tol = core.tol_for(case["attr"], metric)
    if metric == "sqeuclidean_fn":
        tol *= core.scale_of(case["attr"])
    return tol


def arrays(case):
    labels = np.array(case["labels"], dtype=case["dtype"])
    attr = np.array(case["attr"], order="F") if case["fortran"] else core.attr_array(case["attr"])
    return labels, attr


def number(x, what):
    arr = np.asarray(x)
    if arr.size != 1:
        core.fail("%s returned %r instead of a number", what, x)
    return float(arr.reshape(-1)[0])


def unchanged(case, labels, attr, what):
    if labels.tolist() != np.array(case["labels"], dtype=case["dtype"]).tolist():
        core.fail("%s changed the labels to %r", what, labels.tolist())
    if not np.array_equal(attr, np.array(case["attr"])):
        core.fail("%s changed the attributes", what)


def check_value(case, ctx):
    labels, attr = arrays(case)
    obj = core.make_objective(case["obj"])
    got = number(ctx.call("objective", obj, labels, attr), "objective")
    want = ref.objective(case["obj"], case["labels"], case["attr"])
    if not abs(got - want) <= tolerance(case) + 1e-9 * abs(want):
        core.fail("objective is %r, by definition %r", got, want)
    unchanged(case, labels, attr, "objective")
    ctx.nontrivial = nontrivial(case)
    ctx.tag(case["obj"]["kind"])


def check_update(case, ctx):
    labels, attr = arrays(case)
    obj = core.make_objective(case["obj"])
    lab = case["labels"]
    reg = ref.regions(lab)
    before = ref.objective(case["obj"], lab, case["attr"])
    moves = 0
    for a in range(len(lab)):
        if len(reg[lab[a]]) == 1:
            continue
        for r in sorted(reg):
            if r == lab[a]:
                continue
            moves += 1
            got = number(ctx.call("update", obj.update, a, labels.dtype.type(r), labels, attr), "update")
            want = ref.objective(case["obj"], ref.moved(lab, a, r), case["attr"]) - before
            if not abs(got - want) <= tolerance(case) + 1e-9 * abs(before):
                core.fail("update(%d, %r) is %r, but the objective changes by %r", a, r, got, want)
            unchanged(case, labels, attr, "update(%d, %r)" % (a, r))
    ctx.nontrivial = moves > 0 and nontrivial(case)
    ctx.tag(case["obj"]["kind"])


def g_wide(s):
    return {"n": s.int(130, 300), "k": s.choice([200, 140, 258, 3, 40]), "seed": s.int(0, 10 ** 6),
            "obj": {"kind": "pairwise", "metric": s.choice(METRICS)} if s.bool() else
            {"kind": "center", "metric": s.choice(METRICS), "center": "mean", "reduction": "sum"},
            "dtype": s.choice(["int64", "int32", "float64"]), "tall": s.bool()}


def check_wide(c, ctx):
    """Values and exact changes with hundreds of areas and regions."""
    rnd = random.Random(c["seed"])
    n, k = c["n"], min(c["k"], c["n"] - 1)
    labels = list(range(k)) + [rnd.randrange(k) for _ in range(n - k)]
    rnd.shuffle(labels)
    top = 10 ** 6 if c["tall"] else 250
    case = dict(c, labels=labels, fortran=False,
                attr=[[rnd.randrange(top) for _ in range(1 + c["seed"] % 3)] for _ in range(n)])
    check_value(case, ctx)
    labels, attr = arrays(case)
    obj = core.make_objective(case["obj"])
    lab = case["labels"]
    before = ref.objective(case["obj"], lab, case["attr"])
    movable = [a for a in range(n) if lab.count(lab[a]) > 1]
    for _ in range(3):
        a = rnd.choice(movable)
        r = rnd.choice([x for x in range(k) if x != lab[a]])
        got = number(ctx.call("update", obj.update, a, labels.dtype.type(r), labels, attr), "update")
        want = ref.objective(case["obj"], ref.moved(lab, a, r), case["attr"]) - before
        if not abs(got - want) <= tolerance(case) + 1e-9 * abs(before):
            core.fail("update(%d, %r) is %r, but the objective changes by %r", a, r, got, want)


def g_default(s):
    case = g_case(s)
    case["obj"] = {"kind": "pairwise", "metric": "manhattan"} if s.bool() else \
        {"kind": "center", "metric": "manhattan", "center": "mean", "reduction": "sum"}
    case["scalar"] = s.bool()
    if case["scalar"]:
        case["obj"] = {"kind": "pairwise", "metric": "chebyshev_scalar"}
    return case


def check_default(case, ctx):
    """The objective functions as created without arguments, and the value
    with a scalar-valued metric (as documented)."""
    from region.objective_function import ObjectiveFunctionCenter, ObjectiveFunctionPairwise
    labels, attr = arrays(case)
    spec = case["obj"]
    cls = {"pairwise": ObjectiveFunctionPairwise, "center": ObjectiveFunctionCenter}[spec["kind"]]
    obj = cls(core.scalar_chebyshev) if case["scalar"] else cls()
    got = number(ctx.call("objective", obj, labels, attr), "objective")
    wants = [ref.objective(dict(spec, metric=m), case["labels"], case["attr"])
             for m in (["chebyshev_scalar"] if case["scalar"] else ["manhattan", "euclidean"])]
    tol = core.tol_for(case["attr"])
    if not any(abs(got - w) <= tol + 1e-9 * abs(w) for w in wants):
        core.fail("objective is %r, by definition one of %r", got, wants)
    ctx.nontrivial = nontrivial(case)


def known_metric_none():
    from region.util import get_metric_function
    d = get_metric_function(None)(np.array([[0., 0.]]), np.array([[3., 4.]]))
    return float(np.asarray(d).item()) == 7


def known_scalar_metric():
    from region.objective_function import ObjectiveFunctionPairwise
    try:
        ObjectiveFunctionPairwise(core.scalar_chebyshev).update(
            0, 1, np.array([0, 0, 1]), np.array([[0.], [1.], [3.]]))
    except TypeError:
        return True
    return False


KNOWN = {"metric-none": known_metric_none, "scalar-metric": known_scalar_metric}

PARTS = [
    {"name": "defaults", "gen": g_default, "check": check_default, "quick": 1200, "thorough": 20000},
    {"name": "value", "gen": g_case, "check": check_value, "quick": 6000, "thorough": 150000},
    {"name": "update", "gen": g_case, "check": check_update, "quick": 4000, "thorough": 100000},
    {"name": "wide", "gen": g_wide, "check": check_wide, "quick": 80, "thorough": 1000},
]
