"""P10: a random_state makes every heuristic reproducible."""
import json
import os
import random
import select
import subprocess
import sys

import numpy as np

import core
import formats
import gen
import ref

ID = "P10"
RULE = ("A case is a problem in one of the input formats, a heuristic with a random_state (int, str, bytes "
        "or bytearray) and a way to disturb the process before (global generators reseeded and used, another "
        "estimator created and fitted). The labels of the undisturbed run, the disturbed run and of runs in "
        "two other processes with other hash seeds must be identical. Non-trivial: runs with five other "
        "random_states do not all give the same labels, i.e. the random numbers matter.")
ASSUMPTIONS = ["nothing draws random numbers between the creation of the estimator and its fit",
               "same machine and library versions in all processes"]
HASH_SEEDS = ("1", "4242")


def seed_spec(s):
    return {"type": s.choice(["int", "int", "str", "bytes", "bytearray", "bigint"]),
            "value": s.int(0, 10 ** 6)}


def seed_of(spec, shift=0):
    v = spec["value"] + shift
    return {"int": v, "bigint": v + 2 ** 70, "str": "seed %d" % v, "bytes": b"seed %d" % v,
            "bytearray": bytearray(b"seed %d" % v)}[spec["type"]]


def disturbance(s):
    return {"kinds": [k for k in ("random", "numpy", "fit", "names") if s.bool()], "value": s.int(0, 10 ** 6)}


def case_map(s, min_n, max_n):
    m = formats.lattice(s, min_n, max_n)
    return m, formats.input_spec(s, len(m["cells"])), len(m["cells"])


def g_heu(s, min_n=3, max_n=9):
    spec = gen.heuristic(s)
    sa = spec["algo"] == "sa"
    if sa:
        spec.update(max_iterations=s.choice([1, 2]), nonmoving_steps_before_stop=1,
                    repetitions_before_termination=s.choice([1, 2]), cooling_factor=s.choice([.1, .5]))
        max_n = min(max_n, 7)
    m, inp, n = case_map(s, min_n, max_n)
    g = formats.graph_of(m, inp["contiguity"])
    lo = g["comps"]
    p = s.int(min(n, lo + 1), max(lo + 1, n // 2)) if lo + 1 < n else s.int(lo, n)
    return {"map": m, "input": inp, "p": p, "spec": spec, "seed": seed_spec(s),
            "attr": gen.attrs(s, n, 2, ["big", "float"] if sa else ["small", "two", "const", "float"]),
            "start": gen.partition(s, g, p) if s.chance(30) else None,
            "disturb": disturbance(s)}


def g_heu_large(s):
    t = gen.TraceSource(random.Random(s.int(0, 2 ** 31)))
    g = gen.graph(t, 12, 30, 3, ["grid", "tree", "extra", "gridqueen"])
    n = g["n"]
    p = t.int(g["comps"], max(g["comps"], n // 3))
    m = {"cells": [[0, i] for i in range(n)], "ids": t.perm(n), "kind": t.choice(["int", "str", "tuple"])}
    spec = gen.heuristic(t)
    if spec["algo"] == "sa":
        spec.update(max_iterations=1, nonmoving_steps_before_stop=1, repetitions_before_termination=1,
                    init_temperature=1, cooling_factor=.1)
    inp = {"fmt": t.choice(["matrix", "w", "dict", "nx"]), "orders": [t.perm(n), t.perm(n), t.perm(n)],
           "style": t.int(0, 31), "contiguity": "rook"}
    return {"map": m, "input": inp, "p": p, "spec": spec, "seed": seed_spec(t), "graph": g,
            "attr": gen.attrs(t, n, 2, ["big"] if spec["algo"] == "sa" else ["small", "two", "float"]),
            "start": None, "disturb": disturbance(t)}


def g_maxp(s):
    m, inp, n = case_map(s, 3, 9)
    g = formats.graph_of(m, inp["contiguity"])
    spat = [[s.int(1, 4)] for _ in range(n)]
    comps = ref.components(range(n), core.nbrs(g))
    ls = s.choice([None, None, "azp", "basic", "reactive", "sa"])
    if ls is not None:
        ls = gen.heuristic(s, [ls])
        if ls["algo"] == "sa":
            ls.update(max_iterations=1, nonmoving_steps_before_stop=1, repetitions_before_termination=1)
    return {"map": m, "input": inp, "spat": spat,
            "threshold": min(min(sum(spat[i][0] for i in c) for c in comps), s.int(2, 8)),
            "attr": gen.attrs(s, n, 2, ["big", "float"] if ls and ls["algo"] == "sa" else ["small", "two", "float"]),
            "local_search": ls, "seed": seed_spec(s), "max_it": s.int(1, 5), "disturb": disturbance(s)}


def run(case, shift=0):
    """Create and fit the estimator of the case; its labels."""
    inp = formats.make_input(case["map"], case["input"], graph=case.get("graph"))
    a = inp.table("attr", case["attr"])
    seed = seed_of(case["seed"], shift)
    kw = {}
    if inp.fmt == "gdf":
        kw["contiguity"] = case["input"]["contiguity"]
    obj = core.make_objective({"kind": "pairwise", "metric": "manhattan"}, limit=2 * 10 ** 6)
    if "spat" in case:
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        sp = inp.table("spat", case["spat"])
        ls = case["local_search"]
        if ls is not None:
            ls = core.make_heuristic(dict(ls, seed=ls["seed"] + shift))
        est = MaxPRegionsHeu(local_search=ls, random_state=seed)
        inp.fit(est, a, sp, case["threshold"], max_it=case["max_it"], objective_func=obj, **kw)
    else:
        start = inp.start(case["start"])
        if start is not None:
            kw["initial_labels"] = start
        est = core.make_heuristic(dict(case["spec"], seed=seed))
        inp.fit(est, a, case["p"], objective_func=obj, **dict(kw, **core.fit_kwargs(case["spec"])))
    return inp.labels(est)


_helpers = {}


def helper(hashseed):
    p = _helpers.get(hashseed)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        p = _helpers[hashseed] = subprocess.Popen(
            [sys.executable, "-B", os.path.join(os.path.dirname(os.path.dirname(__file__)), "helper.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    return p


def elsewhere(case, hashseed):
    p = helper(hashseed)
    p.stdin.write(json.dumps(case) + "\n")
    p.stdin.flush()
    if not select.select([p.stdout], [], [], 150)[0]:
        p.kill()
        _helpers.pop(hashseed)
        raise core.Endless("another process does not end on a case which ended here")
    ans = json.loads(p.stdout.readline())
    if "error" in ans:
        core.fail("works here, but fails in another process: %s", ans["error"])
    return ans["labels"]


def disturb(d):
    v = d["value"]
    if "fit" in d["kinds"]:
        est = core.make_heuristic({"algo": "azp", "seed": v})
        g = {"n": 4, "edges": [[0, 1], [1, 2], [2, 3]]}
        est.fit(core.adj_matrix(g), np.array([[1.], [5], [2], [7]]), 2)
    if "names" in d["kinds"]:       # move memory addresses around
        _keep.append([object() for _ in range(v % 1000)])
    if "numpy" in d["kinds"]:
        np.random.seed(v)
        np.random.rand(v % 7)
    if "random" in d["kinds"]:
        random.seed(v + 1)
        for _ in range(v % 11):
            random.random()


_keep = []


def check(case, ctx):
    name = "MaxPRegionsHeu" if "spat" in case else case["spec"]["algo"]
    random.seed(0)
    np.random.seed(0)
    first = ctx.call(name, run, case)
    disturb(case["disturb"])
    again = ctx.call(name, run, case)
    if again != first:
        core.fail("%s with random_state %r: %r, and %r after %s", name, seed_of(case["seed"]), first, again,
                  ", ".join(case["disturb"]["kinds"]) or "a first run")
    for h in HASH_SEEDS:
        other = elsewhere(case, h)
        if other != first:
            core.fail("%s with random_state %r: %r, but %r in a process with PYTHONHASHSEED=%s", name,
                      seed_of(case["seed"]), first, other, h)
    del _keep[:-20]
    ctx.tag(name, case["input"]["fmt"], case["map"]["kind"], case["seed"]["type"])
    for shift in range(1, 6):
        if ctx.call(name, run, case, shift) != first:
            ctx.nontrivial = True
            break


PARTS = [
    {"name": "heuristics", "gen": g_heu, "check": check, "quick": 1600, "thorough": 24000},
    {"name": "heuristics_large", "gen": g_heu_large, "check": check, "quick": 160, "thorough": 2500},
    {"name": "max_p", "gen": g_maxp, "check": check, "quick": 640, "thorough": 10000},
]
