"""P13: SKATER's regions are contiguous, keep the quorum, and are as many as asked for."""
import core
import gen
import ref
from props import skater_common as sk

ID = "P13"
RULE = ("A case is a weights graph (binary or weighted, any transformation, with islands), data (or none), "
        "n_clusters (up to infinity), a quorum and the treatment of islands; labels and forest are judged "
        "against graph search. Non-trivial: at least one cut was made, or the quorum stopped the search early, "
        "and regions of several observations remain.")
ASSUMPTIONS = ["W is symmetric", "dissimilarities are finite"]


def small(s):
    c = sk.problem(s)
    c["spec"] = sk.spec(s)
    c["spec"]["default"] = s.chance(20)
    c["use_data"] = s.chance(85)
    return c


def large(s):
    import random
    t = gen.TraceSource(random.Random(s.int(0, 2 ** 31)))
    c = sk.problem(t, 20, 45)
    c["spec"] = sk.spec(t)
    c["use_data"] = t.chance(85)
    c["quorum"] = t.choice([None, 1, 2, 3, 5, 8])
    c["n_clusters"] = t.choice([2, 3, 5, 7])
    return c


def check(c, ctx):
    n = c["graph"]["n"]
    nb = core.nbrs(c["graph"])
    comps = ref.components(range(n), nb)
    q = c["quorum"] or 0
    est = sk.estimator(c["spec"])
    if len(comps) > 1 and min(map(len, comps)) < q:
        ctx.rejects("island below the quorum", lambda: sk.fit(est, c, c["use_data"]), (ValueError,))
        if hasattr(est, "current_labels_"):
            core.fail("a rejected fit published labels")
        ctx.tag("rejected")
        return
    res = ctx.call("SKATER fit", sk.fit, est, c, c["use_data"])
    if res is not est:
        core.fail("fit returned %r", type(res))
    labels = [int(x) for x in est.current_labels_]
    bad = ref.partition_problem(labels, n, nb)
    if bad:
        core.fail("SKATER: %s", bad)
    k = len(set(labels))
    if set(labels) != set(range(k)):
        core.fail("labels %r instead of 0..%d", sorted(set(labels)), k - 1)
    sizes = sk.sizes(labels)
    if min(sizes) < q and n >= q:
        core.fail("regions of sizes %r with quorum %r", sizes, q)
    forest = sk.forest_edges(est.minimum_spanning_forest_)
    if not forest <= {tuple(e) for e in c["graph"]["edges"]}:
        core.fail("the forest has edges %r which are no edges of the map",
                  sorted(forest - {tuple(e) for e in c["graph"]["edges"]}))
    if sk.parts_of(n, forest) != ref.canon(labels):
        core.fail("labels %r are not the components of the forest %r", labels, sorted(forest))
    want = n if c["n_clusters"] == "inf" else c["n_clusters"]
    if len(comps) > 1 and c["islands"].lower() != "ignore":
        want += len(comps)
        ctx.tag("increase")
    elif len(comps) > 1:
        ctx.tag("ignore")
    want = max(want, len(comps))
    if c["n_clusters"] == "inf":
        want = n + 1
    if k > want:
        core.fail("%d regions instead of %d", k, want)
    if k < want:
        for e in sorted(forest):
            after = sk.sizes(sk.parts_of(n, forest - {e}))
            if min(after) >= q:
                core.fail("%d regions instead of %d although cutting %r leaves sizes %r (quorum %r)",
                          k, want, e, after, q)
        ctx.tag("quorum stop" if k < n else "all cut")
        ctx.nontrivial = k < n
    if k > len(comps) and max(sizes) > 1:
        ctx.nontrivial = True
    if not c["use_data"]:
        ctx.tag("no data")


PARTS = [
    {"name": "small", "gen": small, "check": check, "quick": 5000, "thorough": 100000},
    {"name": "large", "gen": large, "check": check, "quick": 80, "thorough": 2000},
]
