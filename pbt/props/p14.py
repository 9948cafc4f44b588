"""P14: SKATER prunes a minimum spanning forest greedily, by correct scores."""
import numpy as np

import core
import ref
from props import skater_common as sk

ID = "P14"
RULE = ("fit: a SKATER problem; the forest before the first cut is rebuilt from the final forest and the traced "
        "cuts and its weight compared with Kruskal's algorithm, then every traced cut is compared with all cuts "
        "the forest offered (reference scores). find_cut: one search on any spanning forest, restricted to a "
        "component or not. score: any labels. Non-trivial: a cut was made where cuts with other scores were "
        "available (fit, find_cut), more than one region (score).")
ASSUMPTIONS = ["scores are compared up to rounding, so cuts within rounding of the best are accepted"]


def g_fit(s):
    c = sk.problem(s, 3, 10)
    c["spec"] = sk.spec(s)
    c["use_data"] = s.chance(92)
    return c


def kruskal(n, edges, weight):
    par = list(range(n))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    total, used = 0.0, []
    for w, (i, j) in sorted((weight[e], e) for e in edges):
        a, b = find(i), find(j)
        if a != b:
            par[a] = b
            total += w
            used.append((i, j))
    return total, used


def options(sp, n, forest, data, quorum, within=None):
    """{edge: reference score after cutting it}, quorum-respecting only."""
    res = {}
    for e in forest:
        if within is not None and e[0] not in within:
            continue
        v = sk.score(sp, sk.parts_of(n, forest - {e}), data, quorum)
        if v != float("inf"):
            res[e] = v
    return res


def check_fit(c, ctx):
    n = c["graph"]["n"]
    sp, data, q = c["spec"], c["data"], c["quorum"]
    if not c["use_data"]:
        data = [[1.0]] * n
    comps = ref.components(range(n), core.nbrs(c["graph"]))
    if len(comps) > 1 and min(map(len, comps)) < (q or 0):
        ctx.tag("infeasible")
        return
    est = sk.estimator(sp)
    ctx.call("SKATER fit", sk.fit, est, c, c["use_data"], True)
    final = sk.forest_edges(est.minimum_spanning_forest_)
    cuts = []
    if hasattr(est, "_trace"):
        for lab, d in est._trace[1:]:
            e = (min(int(d.in_node), int(d.out_node)), max(int(d.in_node), int(d.out_node)))
            cuts.append((e, float(d.score), [int(x) for x in lab]))
        if est._trace and ref.canon([int(x) for x in est._trace[0][0]]) != sk.parts_of(
                n, final | {e for e, _, _ in cuts}):
            core.fail("the first traced labels are not the map's components")
    else:           # rebuild the cuts from fits with fewer clusters
        was = None
        for k in range(1, len(set(int(x) for x in est.current_labels_)) + 1):
            step = sk.estimator(sp)
            ctx.call("SKATER fit", sk.fit, step, dict(c, n_clusters=k, islands="ignore"), c["use_data"])
            now = sk.forest_edges(step.minimum_spanning_forest_)
            if was is not None and len(was - now) == 1:
                cuts.append(((was - now).pop(), None, [int(x) for x in step.current_labels_]))
            was = now
    forest = final | {e for e, _, _ in cuts}
    graph_edges = [tuple(e) for e in c["graph"]["edges"]]
    if not forest <= set(graph_edges):
        core.fail("forest edges %r outside the map", sorted(forest - set(graph_edges)))
    if len(forest) != n - len(comps) or sk.parts_of(n, forest) != sk.parts_of(n, graph_edges):
        core.fail("%r is no spanning forest", sorted(forest))
    if len(forest) != len(final) + len(cuts):
        core.fail("an edge was cut twice or kept: %r", cuts)
    weight = {e: sk.dist(sp, data[e[0]], data[e[1]]) if c["use_data"] else 1.0 for e in graph_edges}
    tol = sk.tol(data)
    best, _ = kruskal(n, graph_edges, weight)
    total = sum(weight[e] for e in forest)
    if total > best + tol:
        core.fail("the forest has weight %r, a minimum spanning forest %r", total, best)
    cur = set(forest)
    for e, got, lab in cuts:
        opt = options(sp, n, cur, data, q)
        if e not in opt:
            core.fail("cut %r is no quorum-respecting cut of %r", e, sorted(cur))
        if got is not None and abs(got - opt[e]) > tol:
            core.fail("cut %r has score %r, reported %r", e, opt[e], got)
        if opt[e] > min(opt.values()) + tol:
            core.fail("cut %r with score %r although another one has %r", e, opt[e], min(opt.values()))
        cur.discard(e)
        if ref.canon(lab) != sk.parts_of(n, cur):
            core.fail("labels after cutting %r are %r", e, lab)
        if max(opt.values()) > min(opt.values()) + tol:
            ctx.nontrivial = True
    if ref.canon([int(x) for x in est.current_labels_]) != sk.parts_of(n, cur):
        core.fail("final labels %r", list(est.current_labels_))
    # tracing is an observation only
    again = sk.estimator(sp)
    ctx.call("SKATER fit", sk.fit, again, c, c["use_data"], False)
    if [int(x) for x in again.current_labels_] != [int(x) for x in est.current_labels_]:
        core.fail("labels with and without trace differ")
    # score of the fitted labels
    arr = np.array(data, dtype=float)
    s = ctx.call("score()", est.score, arr)
    want = sk.score(sp, [int(x) for x in est.current_labels_], data)
    if abs(float(s) - want) > tol:
        core.fail("score() of the fitted labels is %r instead of %r", s, want)
    ctx.tag("cuts=%d" % min(len(cuts), 4), sp["metric"])


def g_cut(s):
    c = sk.problem(s, 3, 9)
    c["spec"] = sk.spec(s)
    g = c["graph"]
    # any spanning forest, maybe cut already
    par = list(range(g["n"]))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    forest = []
    for k in s.perm(len(g["edges"])):
        i, j = g["edges"][k]
        a, b = find(i), find(j)
        if a != b and not s.chance(12):
            par[a] = b
            forest.append([i, j] if s.bool() else [j, i])
    c["forest"] = forest
    c["target"] = s.int(0, 5) if s.chance(45) else None
    c["rename"] = s.choice(["id", "shift", "str"])
    c["make"] = s.bool()
    return c


def check_cut(c, ctx):
    from scipy.sparse import csr_matrix
    n = c["graph"]["n"]
    sp, data, q = c["spec"], c["data"], c["quorum"]
    if not c["forest"]:
        return
    m = csr_matrix((np.ones(len(c["forest"])) * .5, tuple(zip(*c["forest"]))), shape=(n, n))
    before = m.copy()
    forest = {(min(e), max(e)) for e in c["forest"]}
    est = sk.estimator(sp)
    arr = np.array(data, dtype=float)
    parts = sk.parts_of(n, forest)
    kw = {} if q is None else {"quorum": q}
    within = None
    if c["target"] is not None:
        target = c["target"] % len(set(parts))
        within = {i for i in range(n) if parts[i] == target}
        name = {"id": lambda x: x, "shift": lambda x: 10 * x - 5, "str": lambda x: "r%d" % x}[c["rename"]]
        kw.update(labels=np.array([name(x) for x in parts]), target_label=name(target))
        ctx.tag("target")
    opt = options(sp, n, forest, data, q, within)
    tol = sk.tol(data)
    if not opt:
        d = ctx.call("find_cut", est.find_cut, m, arr, **kw)
        if np.isfinite(d.score):
            core.fail("find_cut returns %r although no cut keeps the quorum", d)
        ctx.rejects("make_cut of an impossible cut", lambda: est.make_cut(*d, MSF=m), (Warning, Exception))
        ctx.tag("no cut")
    elif c["make"]:
        res = ctx.call("find_cut(make=True)", est.find_cut, m, arr, make=True, **kw)
        after = sk.forest_edges(res[0])
        gone = forest - after
        if len(gone) != 1 or not after <= forest:
            core.fail("find_cut(make=True) turned %r into %r", sorted(forest), sorted(after))
        e = gone.pop()
        if e not in opt or opt[e] > min(opt.values()) + tol:
            core.fail("cut %r, but the best of %r was expected", e, opt)
        if ref.canon([int(x) for x in res[2]]) != sk.parts_of(n, after) or res[1] != len(set(parts)) + 1:
            core.fail("make_cut returned %r regions, labels %r", res[1], list(res[2]))
        ctx.tag("make")
    else:
        d = ctx.call("find_cut", est.find_cut, m, arr, **kw)
        e = (min(int(d.in_node), int(d.out_node)), max(int(d.in_node), int(d.out_node)))
        if e not in opt or opt[e] > min(opt.values()) + tol or abs(opt[e] - float(d.score)) > tol:
            core.fail("find_cut returned %r; possible: %r", d, opt)
        if (m != before).nnz:
            core.fail("find_cut changed the forest")
        res = ctx.call("make_cut", est.make_cut, *d, MSF=m)
        if sk.forest_edges(res[0]) != forest - {e}:
            core.fail("make_cut of %r turned %r into %r", e, sorted(forest), sorted(sk.forest_edges(res[0])))
        if ref.canon([int(x) for x in res[2]]) != sk.parts_of(n, forest - {e}) \
                or res[1] != len(set(parts)) + 1:
            core.fail("make_cut returned %r regions, labels %r", res[1], list(res[2]))
    if opt and max(opt.values()) > min(opt.values()) + tol:
        ctx.nontrivial = True


def g_score(s):
    n = s.int(1, 10)
    import gen
    labels = [s.int(0, 3) for _ in range(n)]
    return {"data": gen.attrs(s, n, 3, ["small", "ints", "float", "two"]), "labels": labels,
            "names": s.choice(["int", "neg", "str", "float", "big", "bool"]), "list": s.bool(),
            "quorum": s.choice([None, 0, 1, 2, 3, 4]), "spec": sk.spec(s)}


def check_score(c, ctx):
    sp, data, q = c["spec"], c["data"], c["quorum"]
    name = {"int": lambda x: x, "neg": lambda x: x - 2, "str": lambda x: "r%d" % (12 - 4 * x),
            "float": lambda x: x / 4, "big": lambda x: 10 ** 12 - x, "bool": lambda x: x > 1}[c["names"]]
    labels = [name(x) for x in c["labels"]]
    est = sk.estimator(sp)
    kw = {} if q is None else {"quorum": q}
    got = float(ctx.call("score()", est.score, np.array(data, dtype=float), np.array(labels), **kw))
    want = sk.score(sp, labels, data, q)
    if got != want and not abs(got - want) <= sk.tol(data):
        core.fail("score() is %r instead of %r", got, want)
    ctx.nontrivial = len(set(labels)) > 1
    ctx.tag("inf" if want == float("inf") else "finite", c["names"])


PARTS = [
    {"name": "fit", "gen": g_fit, "check": check_fit, "quick": 2400, "thorough": 60000},
    {"name": "find_cut", "gen": g_cut, "check": check_cut, "quick": 5000, "thorough": 100000},
    {"name": "score", "gen": g_score, "check": check_score, "quick": 4000, "thorough": 60000},
]
