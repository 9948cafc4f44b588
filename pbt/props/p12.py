"""P12: fitting never modifies the caller's data."""
import numpy as np

import core
import formats
import gen
import ref
from props import p11

ID = "P12"
RULE = ("A case is an estimator, an entry point with its own kind of inputs (sparse matrix, arrays, dicts, "
        "graph, W with any transformation, GeoDataFrame, thresholds, starting labels) and a request which is "
        "valid or wrong in one way; all inputs are snapshotted deeply and compared after the call. "
        "Non-trivial: a valid fit ended with more than one region and fewer regions than areas, or a wrong "
        "request was rejected.")
ASSUMPTIONS = ["a matrix is compared by shape, type, dtype and entries; a W by neighbours, weights, order and "
               "transformation; a GeoDataFrame by columns, types, index and values"]


def snapshot(x):
    """A deep copy in plain, comparable data."""
    import geopandas
    import networkx as nx
    from libpysal import weights
    from scipy.sparse import issparse
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return repr(x)
    if isinstance(x, np.generic):
        return ("scalar", str(x.dtype), x.item())
    if issparse(x):
        return ("sparse", type(x).__name__, x.shape, str(x.dtype), x.toarray().tolist())
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tolist())
    if isinstance(x, geopandas.GeoDataFrame):
        return ("gdf", [str(c) for c in x.columns], [str(t) for t in x.dtypes], list(x.index),
                [[v.wkb_hex if c == x.geometry.name else v for v in x[c]] for c in x.columns],
                x.index.name, x.geometry.name)
    if isinstance(x, nx.Graph):
        return ("graph", [(repr(a), snapshot(dict(d))) for a, d in x.nodes(data=True)],
                [(repr(a), repr(b), snapshot(dict(d))) for a, b, d in x.edges(data=True)],
                snapshot(dict(x.graph)))
    if isinstance(x, weights.W):
        order = list(x.id_order)
        return ("w", x.n, order, x.get_transform(),
                [(repr(i), list(x.neighbors[i]), [float(v) for v in x.weights[i]]) for i in order],
                x.sparse.toarray().tolist())
    if isinstance(x, dict):
        return ("dict", [(repr(k), snapshot(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", type(x).__name__, sorted(repr(v) for v in x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    raise TypeError("cannot snapshot %r" % type(x))


def g_p(s):
    spec = gen.heuristic(s)
    sa = spec["algo"] == "sa"
    if sa:
        spec.update(max_iterations=s.choice([1, 2]), repetitions_before_termination=1,
                    nonmoving_steps_before_stop=1)
    op = p11.p_op(s, 0, 7 if sa else 9, ["big", "float"] if sa else gen.VALUE_KINDS)
    if s.chance(40):        # more starts, and invalid ones
        g = formats.graph_of(op["map"], op["input"]["contiguity"])
        op["start"] = gen.partition(s, g, op["p"])
        op["bad"] = None
        if s.chance(30) and g["n"] > 2:
            op["start"] = [s.int(0, max(1, op["p"] - 1)) for _ in range(g["n"])]
            op["bad"] = "start"
    return {"spec": spec, "op": op, "extra": extra(s)}


def extra(s):
    return {"w_transform": s.choice([None, "r", "b", "v"]), "dtype": s.choice(["float", "int", "int32"]),
            "fortran": s.bool(), "weighted": s.bool(), "array_threshold": s.bool(), "one_d": s.bool()}


def g_p_exact(s):
    op = p11.p_op(s, 0, 4, ["small", "ints", "two", "float"])
    op["method"] = s.choice(["flow", "order", "tree"])
    op["metric"] = s.choice(["manhattan", "euclidean"])
    return {"spec": {"algo": "p_exact"}, "op": op, "extra": extra(s)}


def g_maxp_exact(s):
    op = p11.maxp_op(s, 0, 4, ["small", "ints", "two"])
    op["metric"] = s.choice(["manhattan", "euclidean"])
    return {"spec": {"algo": "maxp_exact"}, "op": op, "extra": extra(s)}


def g_maxp(s):
    ls = s.choice(["azp", "basic", "reactive", "sa", None])
    spec = {"algo": "maxp", "ls": None, "seed": s.int(0, 1000)}
    if ls:
        spec["local"] = gen.heuristic(s, [ls])
        if ls == "sa":
            spec["local"].update(max_iterations=1, repetitions_before_termination=1,
                                 nonmoving_steps_before_stop=1)
    op = p11.maxp_op(s, 0, 6 if ls == "sa" else 9, ["big", "float"] if ls == "sa" else gen.VALUE_KINDS)
    return {"spec": spec, "op": op, "extra": extra(s)}


def cast(x, extra):
    if isinstance(x, np.ndarray) and x.ndim and x.dtype.kind in "if":
        if extra["dtype"] != "int32" or x.dtype.kind == "i":
            x = x.astype({"float": float, "int": x.dtype, "int32": np.int32}[extra["dtype"]])
        if extra["fortran"]:
            x = np.asfortranarray(x)
        if extra["one_d"] and x.ndim == 2 and x.shape[1] == 1:
            x = x.reshape(-1)
    return x


def check(case, ctx):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    spec, op, ex = case["spec"], case["op"], case["extra"]
    if spec["algo"] == "maxp":
        local = core.make_heuristic(spec["local"]) if "local" in spec else None
        est = MaxPRegionsHeu(local_search=local, random_state=spec["seed"])
    else:
        est = p11.make([spec])[0]
    inp = formats.make_input(op["map"], dict(op["input"], enc=op["input"].get("enc", 0) | 2 * ex["weighted"]),
                             w_transform=ex["w_transform"] if op["input"]["fmt"] == "w" else None)
    a = cast(inp.table("attr", op["attr"]), ex)
    inputs = {"the problem": inp.problem, "the attributes": a}
    kw = {}
    if inp.fmt == "gdf":
        kw["contiguity"] = op["input"]["contiguity"]
    if "metric" in op:
        kw["metric"] = op["metric"]
    else:
        kw["objective_func"] = core.make_objective(p11.PAIRWISE, limit=2 * 10 ** 6)
    args = [a]
    if "spat" in op:
        sp = cast(inp.table("spat", op["spat"]), ex)
        t = op["threshold"]
        t = t[0] if len(t) == 1 and not (ex["array_threshold"] and np.ndim(sp) == 2) else \
            np.array(t, dtype=float if ex["dtype"] == "float" else int)
        inputs["the spatially extensive attributes"] = sp
        inputs["the threshold"] = t
        args += [sp, t]
        if spec["algo"] == "maxp":
            kw["max_it"] = op["max_it"]
    else:
        args.append({"too_many": inp.n + 1, "nonpositive": 0}.get(op["bad"], op["p"]))
        if "method" in op:
            kw["method"] = op["method"]
        elif op["start"] is not None:
            start = inp.start(op["start"])
            if isinstance(start, np.ndarray):
                small = start.max(initial=0) < 2 ** 31
                start = start.astype({"float": float, "int": int, "int32": np.int32 if small else int}[ex["dtype"]])
            kw["initial_labels"] = inputs["the starting labels"] = start
        kw.update(core.fit_kwargs(spec))
    before = {k: snapshot(v) for k, v in inputs.items()}
    what = "%s from %s" % (spec["algo"], inp.fmt)
    rejected = None
    if op["bad"] == "start":        # may be valid by chance
        try:
            inp.fit(est, *args, **kw)
        except Exception as e:
            rejected = e
    elif op["bad"]:
        rejected = ctx.rejects(what, lambda: inp.fit(est, *args, **kw))
    else:
        ctx.call(what, inp.fit, est, *args, **kw)
    for k, v in inputs.items():
        after = snapshot(v)
        if after != before[k]:
            core.fail("%s%s: %s changed from %r to %r", what, " (rejected)" if rejected else "", k,
                      before[k], after)
    ctx.tag(spec["algo"], inp.fmt, "rejected" if rejected else "fitted")
    ctx.nontrivial = rejected is not None or 1 < len(set(inp.labels(est))) < inp.n


def g_skater(s):
    g = gen.graph(s, 2, 10, 3, disconnected=30)
    return {"graph": g, "attr": gen.attrs(s, g["n"], 2), "k": s.int(1, 6), "quorum": s.int(0, 5),
            "trace": s.bool(), "islands": s.choice(["ignore", "increase"]), "data": s.chance(80),
            "ids": s.choice(["int", "str"]), "transform": s.choice(["o", "b", "r", "v", "d"]),
            "weights": s.bool(), "dtype": s.choice(["float", "int"])}


def check_skater(case, ctx):
    from libpysal import weights
    from region.skater.skater import Spanning_Forest
    g = case["graph"]
    n, nb = g["n"], core.nbrs(g)
    name = (lambda i: i) if case["ids"] == "int" else (lambda i: "a%d" % i)
    nbd = {name(i): [name(j) for j in sorted(nb[i])] for i in range(n)}
    wts = {name(i): [(1 + i + j) / 2 if case["weights"] else 1.0 for j in sorted(nb[i])] for i in range(n)}
    w = weights.W(nbd, wts, id_order=[name(i) for i in range(n)], silence_warnings=True)
    if g["edges"]:
        w.transform = case["transform"]
    data = core.attr_array(case["attr"]).astype(case["dtype"]) if case["data"] else None
    before = snapshot(w), snapshot(data)
    est = Spanning_Forest()
    small = min(len(c) for c in ref.components(range(n), nb))

    def run():
        est.fit(case["k"], w, data, quorum=case["quorum"], trace=case["trace"], islands=case["islands"])
    if g["comps"] > 1 and small < case["quorum"]:
        ctx.rejects("SKATER", run)
        ctx.tag("rejected")
        ctx.nontrivial = True
    else:
        ctx.call("SKATER", run)
        ctx.nontrivial = len(set(np.array(est.current_labels_).tolist())) > 1
        if case["data"]:
            ctx.call("score", est.score, data)
    for what, x, y in zip(("W", "data"), before, (snapshot(w), snapshot(data))):
        if x != y:
            core.fail("SKATER: %s changed from %r to %r", what, x, y)
    ctx.tag(case["transform"])


PARTS = [
    {"name": "heuristics", "gen": g_p, "check": check, "quick": 2400, "thorough": 40000},
    {"name": "p_exact", "gen": g_p_exact, "check": core.confirm(check), "quick": 400, "thorough": 5000},
    {"name": "maxp_exact", "gen": g_maxp_exact, "check": core.confirm(check), "quick": 400, "thorough": 5000},
    {"name": "maxp", "gen": g_maxp, "check": check, "quick": 1600, "thorough": 25000},
    {"name": "skater", "gen": g_skater, "check": check_skater, "quick": 1200, "thorough": 12000},
]
