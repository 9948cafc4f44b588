"""Generators.  Each takes a Source of choices and returns plain JSON-able data.
The same generator is driven by Hypothesis (DrawSource) and by the seeded wide
search (TraceSource), whose failures are shrunk by editing the recorded trace
of choices."""
import random


class Source:
    """All random choices of a generator go through int()."""

    def int(self, lo, hi):
        raise NotImplementedError

    def choice(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def bool(self):
        return self.int(0, 1) == 1

    def chance(self, percent):
        """True with (about) this probability; False is the simple value."""
        return self.int(0, 99) >= 100 - percent

    def perm(self, n):
        out = list(range(n))
        for i in range(n - 1):
            j = self.int(i, n - 1)
            out[i], out[j] = out[j], out[i]
        return out

    def sample(self, lo, hi, k):
        """k distinct ints from lo..hi."""
        got = []
        for i in range(k):
            v = self.int(lo, hi - i)
            for g in sorted(got):
                if v >= g:
                    v += 1
            got.append(v)
        return got


class DrawSource(Source):
    def __init__(self, draw, st):
        self.draw, self.st = draw, st

    def int(self, lo, hi):
        return lo if lo == hi else self.draw(self.st.integers(lo, hi))


class TraceSource(Source):
    """Replays `given` offsets, then draws from rnd (or takes the lowest)."""

    def __init__(self, rnd=None, given=()):
        self.rnd, self.given, self.trace = rnd, given, []

    def int(self, lo, hi):
        if lo == hi:
            return lo
        k = len(self.trace)
        if k < len(self.given):
            v = min(self.given[k], hi - lo)
        elif self.rnd is not None:
            v = self.rnd.randint(0, hi - lo)
        else:
            v = 0
        self.trace.append(v)
        return lo + v


# -------------------------------------------------------------------- graphs

SHAPES = ["path", "tree", "grid", "cycle", "star", "complete", "gridqueen",
          "lollipop", "extra", "extra", "grid", "tree"]


def component_edges(s, m, shapes=None):
    """Edges of a connected graph on 0..m-1."""
    if m == 1:
        return []
    kind = s.choice(shapes or SHAPES)
    if kind == "path":
        return [(i, i + 1) for i in range(m - 1)]
    if kind == "cycle":
        return [(i, i + 1) for i in range(m - 1)] + ([(0, m - 1)] if m > 2 else [])
    if kind == "star":
        return [(0, i) for i in range(1, m)]
    if kind == "complete":
        return [(i, j) for i in range(m) for j in range(i + 1, m)]
    if kind == "lollipop":
        k = max(2, m // 2)
        return ([(i, j) for i in range(k) for j in range(i + 1, k)] +
                [(i, i + 1) for i in range(k - 1, m - 1)])
    if kind in ("grid", "gridqueen"):
        w = s.int(2, max(2, (m + 1) // 2))
        edges = []
        for i in range(m):
            if (i + 1) % w and i + 1 < m:
                edges.append((i, i + 1))
            if i + w < m:
                edges.append((i, i + w))
            if kind == "gridqueen":
                if i % w and i + w - 1 < m:
                    edges.append((i, i + w - 1))
                if (i + 1) % w and i + w + 1 < m:
                    edges.append((i, i + w + 1))
        return edges
    edges = [(s.int(0, i - 1), i) for i in range(1, m)]
    if kind == "extra" and m > 2:
        for _ in range(s.int(1, m)):
            i = s.int(1, m - 1)
            edges.append((s.int(0, i - 1), i))
    return edges


def graph(s, min_n=1, max_n=10, max_comp=3, shapes=None, disconnected=25):
    """{"n", "edges" (i<j, sorted), "comps" (number of components), "enc"
    (representation, see core.adj_matrix; absent if plain)}"""
    n = s.int(min_n, max_n)
    if s.chance(60):        # tiny maps can show little
        n = max(n, s.int(min_n, max_n))
    n_comp = 1
    if max_comp > 1 and n > 1 and s.chance(disconnected):
        n_comp = s.int(2, min(max_comp, n))
    cuts = sorted(s.sample(1, n - 1, n_comp - 1)) if n_comp > 1 else []
    perm = s.perm(n) if s.chance(60) else list(range(n))
    edges = set()
    base = 0
    for end in cuts + [n]:
        for i, j in component_edges(s, end - base, shapes):
            a, b = perm[base + i], perm[base + j]
            edges.add((min(a, b), max(a, b)))
        base = end
    g = {"n": n, "edges": [list(e) for e in sorted(edges)], "comps": n_comp}
    if s.chance(20):
        g["enc"] = s.int(1, 31)
    return g


def wide_spec(s, min_n=100, max_n=400, max_comp=4):
    """A map with more areas (and, mostly, regions) than fit into one byte;
    see wide_graph."""
    n = s.int(min_n, max_n)
    return {"n": n, "map": s.int(0, 10 ** 6), "comps": max_comp,
            "p": min(n, s.choice([130, 132, 135, 150, 200, 257, 300, 12, n - 2, n]))}


def wide_graph(spec):
    """The graph of such a case and its number of regions."""
    t = TraceSource(random.Random(spec["map"]))
    g = graph(t, spec["n"], spec["n"], spec["comps"], ["grid", "grid", "tree", "extra", "gridqueen"], 40)
    return g, max(g["comps"], min(spec["p"], spec["n"])), t


# ---------------------------------------------------------------- attributes

VALUE_KINDS = ["small", "small", "ints", "dyadic", "two", "const", "float", "big"]


def value(s, kind):
    if kind == "small":
        return s.int(0, 5)
    if kind == "ints":
        return s.int(-50, 50)
    if kind == "dyadic":
        return s.int(-64, 64) / 8
    if kind == "two":
        return s.choice([0, 7])
    if kind == "const":
        return 3
    if kind == "float":
        return s.int(-10 ** 6, 10 ** 6) / 1000
    if kind == "big":
        return s.int(0, 10 ** 6)
    raise KeyError(kind)


def attrs(s, n, max_cols=3, kinds=None):
    """n rows of 1..max_cols numbers."""
    kind = s.choice(kinds or VALUE_KINDS)
    cols = s.int(1, max_cols)
    return [[value(s, kind) for _ in range(cols)] for _ in range(n)]


# ---------------------------------------------------------------- partitions

def _find(par, x):
    while par[x] != x:
        x = par[x]
    return x


def forest_partition(n, edges, order, n_regions):
    """Merge areas along the edges, in the given order, down to n_regions."""
    par = list(range(n))
    left = n - n_regions
    for e in order:
        if left == 0:
            break
        a, b = _find(par, edges[e][0]), _find(par, edges[e][1])
        if a != b:
            par[a] = b
            left -= 1
    roots = {}
    return [roots.setdefault(_find(par, i), len(roots)) for i in range(n)]


def rename(s, labels):
    """Arbitrary distinct non-negative integers as labels."""
    k = len(set(labels))
    how = s.int(0, 9)
    if how in (1, 2):
        names = s.perm(k)
    elif how in (3, 4):
        names = s.sample(0, 40, k) if k <= 30 else s.perm(k)
    elif how == 5:
        # identifiers beyond 32 bits, alike in their lower half
        names = [x // 4 + (x % 4 << 32) - (x % 4 > 0 and x % 3 == 0) for x in s.sample(0, 4 * k + 8, k)]
        if len(set(names)) < k:
            return labels
    else:
        return labels
    return [names[l] for l in labels]


def partition(s, g, n_regions, any_names=True):
    """Labels of a valid partition of graph g into n_regions regions."""
    labels = forest_partition(g["n"], g["edges"], s.perm(len(g["edges"])), n_regions)
    return rename(s, labels) if any_names else labels


# ------------------------------------------------------- objectives, methods

METRICS = ["manhattan", "euclidean", "chebyshev_fn"]


def own_objective(s, metric="manhattan", ties=True):
    """A user's own objective function, see ref.own_value."""
    return {"kind": "own", "metric": metric, "salt": s.int(0, 10 ** 6), "base": s.choice([0, 0, 1000, -1000]),
            "range": s.choice([10 ** 6, 10 ** 6, 100, 4, 2] if ties else [10 ** 6])}


def objective(s, metrics=None, center=True, reductions=("sum", "max", "mean"), own=0):
    """own: percentage of a user's own objective functions"""
    metric = s.choice(metrics or METRICS)
    if own and s.chance(own):
        return own_objective(s, metric)
    if not center or s.chance(60):
        return {"kind": "pairwise", "metric": metric}
    return {"kind": "center", "metric": metric,
            "center": s.choice(["mean", "median"]),
            "reduction": s.choice(reductions)}


def heuristic(s, algos=("azp", "sa", "basic", "reactive")):
    algo = s.choice(algos)
    spec = {"algo": algo, "seed": s.int(0, 10 ** 6)}
    if algo == "sa":
        spec.update(
            init_temperature=s.choice([1, 1e-9, .01, 10, 100.5, 1e6]),
            max_iterations=s.choice([1, 2, 3, 10]),
            sa_moves_term=s.choice([1, 2, 5, 10]),
            nonmoving_steps_before_stop=s.int(1, 3),
            repetitions_before_termination=s.int(1, 3),
            cooling_factor=s.choice([.1, .5, None]))
    elif algo == "basic":
        spec.update(
            tabu_length=s.choice([None, 0, 1, 2, 3, 5, 10, 85]),
            repetitions_before_termination=s.int(1, 5))
    elif algo == "reactive":
        spec.update(max_iterations=s.choice([1, 2, 3, 5, 10, 30]),
                    k1=s.int(0, 3), k2=s.int(0, 3))
    return spec


def p_problem(s, min_n=1, max_n=10, max_comp=3, max_cols=3, start=None,
              value_kinds=None, any_names=True, shapes=None, disconnected=25):
    """A feasible p-regions problem.  start: None (maybe), True or False."""
    g = graph(s, min_n, max_n, max_comp, shapes, disconnected)
    n, lo = g["n"], g["comps"]
    attr = attrs(s, n, max_cols, value_kinds)
    how = s.int(0, 9)
    if how <= 5 and lo + 1 < n:         # the interesting middle
        p = s.int(lo + 1, n - 1)
        if s.bool():
            p = min(p, max(lo + 1, n // 2))
    else:
        p = s.int(lo, n)
    prob = {"graph": g, "attr": attr, "p": p, "start": None}
    if start or (start is None and s.bool()):
        prob["start"] = partition(s, g, p, any_names)
    return prob


def large_problem(s, min_n=20, max_n=60, max_comp=3, max_cols=2, start=None,
                  value_kinds=None):
    """Like p_problem for bigger maps; made from one seed."""
    t = TraceSource(random.Random(s.int(0, 2 ** 31)))
    g = graph(t, min_n, max_n, max_comp, ["grid", "grid", "tree", "extra", "gridqueen"], 40)
    n, lo = g["n"], g["comps"]
    prob = {"graph": g,
            "attr": attrs(t, n, max_cols, value_kinds or ["small", "ints", "float", "two", "big"]),
            "p": t.choice([lo, min(n, lo + 1), min(n, lo + 3), max(lo, n // 5), max(lo, n // 2)]),
            "start": None}
    if start or (start is None and t.bool()):
        prob["start"] = partition(t, g, prob["p"])
    return prob


def heuristic_case(s, algos=("azp", "sa", "basic", "reactive"), max_n=9, start=None,
                   objectives=True, min_n=1, value_kinds=None, center=True, own=12, **kw):
    """A heuristic, an objective and a problem.  Simulated annealing walks on
    for as long as there are equivalent solutions it has not seen often enough,
    i.e. nearly endlessly on bigger maps full of ties, so those maps are kept
    small for it."""
    spec = heuristic(s, algos)
    if spec["algo"] == "sa" and min_n <= 4 and s.chance(40):
        max_n = min(max_n, 4)
        obj = objective(s, center=center, own=own)
        prob = p_problem(s, min_n=min_n, max_n=max_n, start=start, value_kinds=value_kinds, **kw)
    elif spec["algo"] == "sa":
        obj = own_objective(s, ties=False) if own and s.chance(own) else \
            dict(objective(s, center=center, reductions=["sum"]), center="mean")
        prob = p_problem(s, min_n=min_n, max_n=max_n, start=start, value_kinds=["big", "float"], **kw)
    else:
        obj = objective(s, center=center, own=own)
        prob = p_problem(s, min_n=min_n, max_n=max_n, start=start, value_kinds=value_kinds, **kw)
    return {"prob": prob, "spec": spec, "obj": obj}


def large_heuristic_case(s, algos=("azp", "sa", "basic", "reactive"), **kw):
    spec = heuristic(s, algos)
    if spec["algo"] == "sa":
        spec.update(max_iterations=1, nonmoving_steps_before_stop=1,
                    repetitions_before_termination=1, init_temperature=1,
                    cooling_factor=.1)
        kw["value_kinds"] = ["big"]
    return {"prob": large_problem(s, **kw), "spec": spec,
            "obj": {"kind": "pairwise", "metric": "manhattan"}}
