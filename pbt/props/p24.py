"""P24: random starts can be any partition the map allows."""
import itertools
import math
import random

import numpy as np

import core
import gen
import ref

ID = "P24"
RULE = ("A case is a map, a number of regions and a first seed. ends: on maps without cycles, every partition whose "
        "probability in the documented procedure is at least 8 % must occur among 350 random starts (drawn with "
        "generate_initial_sol, or read off AZP with an objective function that refuses every move). shares: on maps of "
        "several components, every likely distribution of the regions must occur and the mean number of "
        "regions of a component must match its number of areas. balance: the first cut of a tree must be balanced "
        "more often than one random link would be. Non-trivial: at least two partitions or distributions must "
        "occur, or (balance) the bound exceeds what a single random link gives.")
ASSUMPTIONS = ["statistical bounds at a probability below 1e-11 per judgement"]
TRIALS = 350
TINY = 1e-11


def frozen_objective():
    from region.objective_function import ObjectiveFunction

    class Frozen(ObjectiveFunction):
        def __call__(self, labels, attr):
            return 0.0

        def update(self, moving_area, recipient_region, labels, attr):
            return 1.0
    return Frozen()


def start(case, i, adj):
    """The i-th random start."""
    n, p = case["graph"]["n"], case["p"]
    seed = case["seed"] + i
    if case["via"] == "azp":
        from region.p_regions.azp import AZP
        est = AZP(random_state=seed)
        est.fit(adj, np.arange(n, dtype=float).reshape(n, 1), p, objective_func=frozen_objective())
        return core.labels_of(est, n)
    from region.util import generate_initial_sol
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    labels = [None] * n
    for part in generate_initial_sol(adj, p):
        for a, x in enumerate(part):
            if x != -1:
                labels[a] = int(x)
    return labels


def starts(case, ctx):
    adj = core.adj_matrix(case["graph"])
    n, nb = case["graph"]["n"], core.nbrs(case["graph"])
    out = []
    for i in range(TRIALS):
        labels = ctx.call("random start", start, case, i, adj)
        bad = "an area has no region" if None in labels else ref.partition_problem(labels, n, nb, case["p"])
        if bad:
            core.fail("random start: %s", bad)
        out.append(labels)
    return out


# ------------------------------------------------------------ reference model

def shares(sizes, p):
    """{regions per component: probability}: one region each, the others go
    to components of randomly drawn areas."""
    left = p - len(sizes)
    total = math.comb(sum(sizes) - len(sizes), left)
    out = {}
    for extra in itertools.product(*[range(min(left, m - 1) + 1) for m in sizes]):
        if sum(extra) == left:
            ways = math.prod(math.comb(m - 1, k) for m, k in zip(sizes, extra))
            if ways:
                out[tuple(1 + k for k in extra)] = ways / total
    return out


def cuts(nodes, links, k, tries=5):
    """{set of cut links: probability}: k times the most balanced of some
    random links of the tree is cut."""
    def biggest(cut):
        nb = {a: set() for a in nodes}
        for e in links:
            if e not in cut:
                nb[e[0]].add(e[1])
                nb[e[1]].add(e[0])
        return max(len(c) for c in ref.components(nodes, nb))

    level = {frozenset(): 1.0}
    for _ in range(k):
        nxt = {}
        for cut, q in level.items():
            classes = {}
            for e in links:
                if e not in cut:
                    classes.setdefault(biggest(cut | {e}), []).append(e)
            m, before = len(links) - len(cut), 0
            for size in sorted(classes):
                among = classes[size]
                chance = ((m - before) / m) ** tries - ((m - before - len(among)) / m) ** tries
                before += len(among)
                for e in among:
                    nxt[cut | {e}] = nxt.get(cut | {e}, 0) + q * chance / len(among)
        level = nxt
    return level


def outcomes(g, p):
    """{partition: probability} on a map without cycles."""
    nb = core.nbrs(g)
    comps = [sorted(c) for c in ref.components(range(g["n"]), nb)]
    edges = [tuple(e) for e in g["edges"]]
    res = {}
    for share, q in shares([len(c) for c in comps], p).items():
        level = {frozenset(): q}
        for comp, k in zip(comps, share):
            own = cuts(comp, [e for e in edges if e[0] in comp], k - 1)
            level = {a | b: x * y for a, x in level.items() for b, y in own.items()}
        for cut, x in level.items():
            rest = ref.nbrs_of(g["n"], [e for e in edges if e not in cut])
            labels = [0] * g["n"]
            for i, c in enumerate(ref.components(range(g["n"]), rest)):
                for a in c:
                    labels[a] = i
            key = ref.canon(labels)
            res[key] = res.get(key, 0) + x
    return res


def tail(count, trials, q):
    """P(at most count successes)."""
    if q >= 1:
        return 0.0 if count < trials else 1.0
    return sum(math.exp(math.lgamma(trials + 1) - math.lgamma(i + 1) - math.lgamma(trials - i + 1) +
                        i * math.log(q) + (trials - i) * math.log1p(-q)) for i in range(count + 1))


# ---------------------------------------------------------------------- cases

def g_ends(s):
    g = gen.graph(s, 3, 7, max_comp=3, shapes=["path", "tree", "star"], disconnected=45)
    return {"graph": g, "p": min(g["comps"] + s.choice([1, 2, 0]), g["n"]), "seed": s.int(0, 10 ** 6),
            "via": s.choice(["func", "azp"])}


def check_ends(case, ctx):
    must = {k: q for k, q in outcomes(case["graph"], case["p"]).items() if q >= .08}
    if len(must) < 2:
        ctx.tag("one")
        return
    got = {ref.canon(labels) for labels in starts(case, ctx)}
    for part in sorted(set(must) - got):
        core.fail("%d random starts never gave %r, whose probability is %.3f", TRIALS, list(part), must[part])
    ctx.nontrivial = True
    ctx.tag(case["via"])


def g_shares(s):
    g = gen.graph(s, 4, 16, max_comp=4, disconnected=100)
    while g["comps"] == g["n"]:
        g = gen.graph(s, 4, 16, max_comp=4, disconnected=100)
    p = g["comps"] + s.choice([1, 2, 3, 5])
    return {"graph": g, "p": min(p, max(g["comps"] + 1, g["n"] - 1)), "seed": s.int(0, 10 ** 6),
            "via": s.choice(["func", "func", "func", "azp"])}


def check_shares(case, ctx):
    g, p = case["graph"], case["p"]
    comps = [sorted(c) for c in ref.components(range(g["n"]), core.nbrs(g))]
    sizes = [len(c) for c in comps]
    got = [tuple(len({labels[a] for a in c}) for c in comps) for labels in starts(case, ctx)]
    model = shares(sizes, p)
    must = {k for k, q in model.items() if (1 - q) ** TRIALS < TINY}
    for missing in sorted(must - set(got)):
        core.fail("%d random starts never distributed %d regions as %r among components of %r areas (probability "
                  "%.3f)", TRIALS, p, missing, sizes, model[missing])
    for k, m in enumerate(sizes):
        mean = sum(x[k] for x in got) / TRIALS
        want = sum(q * x[k] for x, q in model.items())
        spread = min(p - len(sizes), m - 1)
        if abs(mean - want) > 1e-9 + spread * math.sqrt(math.log(2 / TINY) / (2 * TRIALS)):
            core.fail("a component of %d of %d areas (%d components) has %.2f of %d regions on average, not about "
                      "%.2f", m, g["n"], len(sizes), mean, p, want)
    ctx.nontrivial = len(must) > 1
    ctx.tag(case["via"])


def g_balance(s):
    g = gen.graph(s, 6, 14, max_comp=1, shapes=["path", "tree", "path"], disconnected=0)
    return {"graph": g, "p": 2, "seed": s.int(0, 10 ** 6), "via": s.choice(["func", "azp"])}


def check_balance(case, ctx):
    """Judged against the best of three links only."""
    g = case["graph"]
    edges = [tuple(e) for e in g["edges"]]
    links = {}
    for e in edges:
        rest = ref.nbrs_of(g["n"], [x for x in edges if x != e])
        links.setdefault(max(len(c) for c in ref.components(range(g["n"]), rest)), []).append(e)
    got = [max(labels.count(x) for x in set(labels)) for labels in starts(case, ctx)]
    m, seen = len(edges), 0
    for size in sorted(links)[:-1]:
        seen += len(links[size])
        q = 1 - ((m - seen) / m) ** 3
        hits = sum(x <= size for x in got)
        if tail(hits, TRIALS, q) < TINY:
            core.fail("the larger of two regions has at most %d of %d areas in %d of %d random starts; the best of "
                      "three random links would reach that with probability %.2f", size, g["n"], hits, TRIALS, q)
        if tail(int(seen / m * TRIALS), TRIALS, q) < TINY:
            ctx.nontrivial = True
    ctx.tag(case["via"])


PARTS = [
    {"name": "ends", "gen": g_ends, "check": check_ends, "quick": 64, "thorough": 1500},
    {"name": "shares", "gen": g_shares, "check": check_shares, "quick": 48, "thorough": 1500},
    {"name": "balance", "gen": g_balance, "check": check_balance, "quick": 40, "thorough": 600},
]
