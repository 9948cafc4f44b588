"""Shared by P13 and P14: SKATER cases."""
import numpy as np

import core
import gen
import ref

METRICS = ["manhattan", "euclidean", "affinity"]


def spec(s):
    return {"metric": s.choice(METRICS), "reduction": s.choice(["sum", "sum", "max", "mean"]),
            "center": s.choice(["mean", "median", "max"])}


def estimator(sp):
    from region.skater.skater import Spanning_Forest
    from sklearn.metrics import pairwise as skm
    kw = {"reduction": core.REDUCTIONS[sp["reduction"]], "center": core.CENTERS[sp["center"]]}
    if sp.get("default"):
        return Spanning_Forest()
    if sp["metric"] == "affinity":
        return Spanning_Forest(
            affinity=lambda X, Y=None: np.exp(-skm.manhattan_distances(X, Y) / 50), **kw)
    return Spanning_Forest(dissimilarity={
        "manhattan": skm.manhattan_distances, "euclidean": skm.euclidean_distances}[sp["metric"]], **kw)


def dist(sp, a, b):
    if sp["metric"] == "affinity":
        return ref.dist("manhattan", a, b) / 50
    return ref.dist(sp["metric"], a, b)


def score(sp, labels, data, quorum=None):
    reg = ref.regions(labels)
    if quorum is not None and min(len(a) for a in reg.values()) < quorum:
        return float("inf")
    vals = []
    for areas in reg.values():
        rows = [data[i] for i in areas]
        c = ref.center(sp["center"], rows)
        vals.append(ref.reduce(sp["reduction"], [dist(sp, r, c) for r in rows]))
    return ref.reduce(sp["reduction"], vals)


def tol(data):
    return 1e-7 * core.scale_of(data) * len(data)


def w_object(g, w):
    """PySAL W; weights and transformation must not matter."""
    from libpysal import weights
    nb = core.nbrs(g)
    n = g["n"]
    ids = w["ids"]
    neigh = {ids[i]: [ids[j] for j in sorted(nb[i], reverse=w["rev"])] for i in range(n)}
    wts = None
    if w["weighted"]:
        wts = {ids[i]: [[1, 2, 3, 1e-7, 3e5][(min(i, j) * 7 + max(i, j)) % 5] for j in sorted(nb[i], reverse=w["rev"])]
               for i in range(n)}
    res = weights.W(neigh, wts, id_order=list(ids), silence_warnings=True)
    if w["transform"] and g["edges"]:
        res.transform = w["transform"]
    return res


def w_spec(s, n):
    return {"ids": s.perm(n) if s.bool() else list(range(n)), "rev": s.bool(), "weighted": s.chance(30),
            "transform": s.choice([None, None, "r", "b", "v"])}


def problem(s, min_n=2, max_n=12, kinds=None, t=None):
    g = gen.graph(s, min_n, max_n, disconnected=30)
    n = g["n"]
    data = gen.attrs(s, n, 3, kinds or ["small", "two", "dyadic", "float", "ints", "const"])
    if kinds is None and max(abs(x) for r in data for x in r) > 2000:
        data = [[x % 100 for x in r] for r in data]
    q = s.choice([None, None, 0, 1, 2, 2, 3, 4])
    return {"graph": g, "data": data, "quorum": q, "w": w_spec(s, n),
            "islands": s.choice(["increase", "ignore", "Ignore", "increase"]),
            "n_clusters": s.choice([1, 2, 3, 4, 5, 6, max(2, n // 2), n, n + 1, "inf"])}


def fit(est, c, data=True, trace=False):
    q = c["quorum"]
    n_clusters = np.inf if c["n_clusters"] == "inf" else c["n_clusters"]
    kw = {} if q is None else {"quorum": q}
    if trace:
        kw["trace"] = True
    if c["islands"] != "increase" or c["w"]["rev"]:
        kw["islands"] = c["islands"]
    return est.fit(n_clusters, w_object(c["graph"], c["w"]),
                   data=np.array(c["data"], dtype=float) if data else None, **kw)


def forest_edges(m):
    i, j = m.nonzero()
    return {(min(a, b), max(a, b)) for a, b in zip(i.tolist(), j.tolist())}


def parts_of(n, edges):
    """Canonical labels of the components."""
    lab = [0] * n
    for k, comp in enumerate(ref.components(range(n), ref.nbrs_of(n, edges))):
        for a in comp:
            lab[a] = k
    return ref.canon(lab)


def sizes(labels):
    return [len(a) for a in ref.regions(labels).values()]
