"""P23: AZP works region by region on random improving moves."""
import core
import gen
import ref

ID = "P23"
RULE = ("A case is a map (connected or not), starting labels, an objective without ties and a seed. All partitions "
        "the documented procedure can end in are enumerated with their probabilities; the labels of AZP must be one "
        "of them. spread: all ends with a sufficient probability must occur among 150 seeds. Cases in which a move "
        "leaves the objective unchanged are not judged. Non-trivial: there is more than one possible end (spread: "
        "more than one which must occur).")
ASSUMPTIONS = ["statistical bound at a probability below 1e-10 per end (spread)"]
SEEDS = 150


class Tie(Exception):
    pass


class Large(Exception):
    pass


def ends(start, areas, nb, obj, attr, limit=4000):
    """{labels of the areas: probability} of the AZP within one component."""
    idx = {a: k for k, a in enumerate(areas)}
    rows = [attr[a] for a in areas]
    near = [{idx[b] for b in nb[a]} for a in areas]
    values = {}
    worked, passed = {}, {}

    def value(labels):
        if labels not in values:
            if len(values) > limit:
                raise Large()
            values[labels] = ref.objective(obj, list(labels), rows)
        return values[labels]

    def improving(labels, region):
        here = value(labels)
        out = []
        for k, old in enumerate(labels):
            if old == region or not any(labels[j] == region for j in near[k]):
                continue
            rest = {j for j, x in enumerate(labels) if x == old and j != k}
            if not rest or not ref.connected(rest, near):
                continue
            new = labels[:k] + (region,) + labels[k + 1:]
            diff = value(new) - here
            if diff == 0:
                raise Tie()
            if diff < 0:
                out.append(new)
        return out

    def work(labels, region):
        """Labels once no area can be moved into the region any more."""
        if (labels, region) not in worked:
            nxt = improving(labels, region)
            res = {} if nxt else {labels: 1.0}
            for new in nxt:
                for fin, q in work(new, region).items():
                    res[fin] = res.get(fin, 0) + q / len(nxt)
            worked[labels, region] = res
        return worked[labels, region]

    def rest_of_pass(labels, todo):
        if (labels, todo) not in passed:
            res = {} if todo else {labels: 1.0}
            for region in todo:
                for mid, q in work(labels, region).items():
                    for fin, r in rest_of_pass(mid, todo - {region}).items():
                        res[fin] = res.get(fin, 0) + q * r / len(todo)
            if len(passed) > 20 * limit:
                raise Large()
            passed[labels, todo] = res
        return passed[labels, todo]

    level, done = {tuple(start): 1.0}, {}
    while level:
        nxt = {}
        for labels, q in level.items():
            for fin, r in rest_of_pass(labels, frozenset(labels)).items():
                if fin == labels:
                    done[fin] = done.get(fin, 0) + q * r
                else:
                    nxt[fin] = nxt.get(fin, 0) + q * r
        level = nxt
    return done


def g_case(s, max_n=9, own=60):
    prob = gen.p_problem(s, 4, max_n, max_comp=2, max_cols=2, start=True, value_kinds=["big", "float", "big"],
                         disconnected=12)
    if s.chance(own):
        obj = gen.own_objective(s, ties=False)
    else:
        obj = {"kind": "pairwise", "metric": s.choice(["manhattan", "manhattan", "chebyshev_fn"])}
    return {"prob": prob, "obj": obj, "seed": s.int(0, 10 ** 6)}


def g_spread(s):
    return g_case(s, 7, 85)


def model(case):
    """[(areas, {ends: probability})] per component; None if not judged."""
    prob = case["prob"]
    nb = core.nbrs(prob["graph"])
    out = []
    # float attributes are multiples of 1/1000; whole numbers keep ties exact
    attr = [[round(x * 1000) for x in row] for row in prob["attr"]] if case["obj"]["kind"] == "pairwise" \
        else prob["attr"]
    try:
        for comp in ref.components(range(prob["graph"]["n"]), nb):
            areas = sorted(comp)
            out.append((areas, ends([prob["start"][a] for a in areas], areas, nb, case["obj"], attr)))
    except (Tie, Large):
        return None
    return out


def run(case, ctx, seed):
    prob = case["prob"]
    spec = {"algo": "azp", "seed": seed}
    est = core.make_heuristic(spec)
    ctx.call("AZP", core.fit_p, est, spec, prob, core.make_objective(case["obj"], limit=10 ** 6))
    return core.labels_of(est, prob["graph"]["n"])


def judge(labels, res):
    got = []
    for areas, fin in res:
        mine = tuple(labels[a] for a in areas)
        if mine not in fin:
            best = sorted(fin.items(), key=lambda x: -x[1])[:4]
            core.fail("AZP ended in %r for the areas %r; the possible ends are %s%s", list(mine), areas,
                      ", ".join("%r (%.2f)" % (list(k), q) for k, q in best), " ..." if len(fin) > 4 else "")
        got.append(mine)
    return got


def check(case, ctx):
    res = model(case)
    if res is None:
        ctx.tag("not judged")
        return
    judge(run(case, ctx, case["seed"]), res)
    ctx.nontrivial = any(len(fin) > 1 for _, fin in res)
    ctx.tag(case["obj"]["kind"])


def check_spread(case, ctx):
    res = model(case)
    if res is None:
        ctx.tag("not judged")
        return
    must = [{k for k, q in fin.items() if (1 - q) ** SEEDS < 1e-10} for _, fin in res]
    if not any(len(m) > 1 for m in must):
        ctx.tag("one end")
        judge(run(case, ctx, case["seed"]), res)
        return
    seen = [set() for _ in res]
    for i in range(SEEDS):
        for k, mine in enumerate(judge(run(case, ctx, case["seed"] + i), res)):
            seen[k].add(mine)
    for k, (areas, fin) in enumerate(res):
        for missing in sorted(must[k] - seen[k]):
            core.fail("%d runs of AZP (random_state %d...) never ended in %r for the areas %r, whose probability "
                      "is %.3f", SEEDS, case["seed"], list(missing), areas, fin[missing])
    ctx.nontrivial = True
    ctx.tag(case["obj"]["kind"])


PARTS = [
    {"name": "model", "gen": g_case, "check": check, "quick": 2400, "thorough": 60000},
    {"name": "spread", "gen": g_spread, "check": check_spread, "quick": 320, "thorough": 4000},
]
