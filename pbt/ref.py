"""Reference implementations: plain Python, independent of the code under test.

A graph is (n, nbrs) with nbrs a list of sets of ints.  Labels are sequences of
hashable values.  Attributes are lists of rows (lists of numbers).
"""
import itertools
import math
import zlib


def nbrs_of(n, edges):
    nb = [set() for _ in range(n)]
    for i, j in edges:
        nb[i].add(j)
        nb[j].add(i)
    return nb


def connected(nodes, nb):
    nodes = set(nodes)
    if not nodes:
        return False
    start = next(iter(nodes))
    seen = {start}
    todo = [start]
    while todo:
        for b in nb[todo.pop()]:
            if b in nodes and b not in seen:
                seen.add(b)
                todo.append(b)
    return len(seen) == len(nodes)


def components(nodes, nb):
    nodes = set(nodes)
    res = []
    while nodes:
        start = min(nodes)
        seen = {start}
        todo = [start]
        while todo:
            for b in nb[todo.pop()]:
                if b in nodes and b not in seen:
                    seen.add(b)
                    todo.append(b)
        res.append(sorted(seen))
        nodes -= seen
    return res


def regions(labels):
    reg = {}
    for i, l in enumerate(labels):
        reg.setdefault(l, []).append(i)
    return reg


def canon(labels):
    """Partition as a canonical tuple (labels renamed by first occurrence)."""
    m = {}
    return tuple(m.setdefault(l, len(m)) for l in labels)


def partition_problem(labels, n, nb, p=None):
    """None if labels is a valid partition, otherwise a description."""
    if len(labels) != n:
        return "%d labels for %d areas" % (len(labels), n)
    reg = regions(labels)
    if p is not None and len(reg) != p:
        return "%d regions instead of %d" % (len(reg), p)
    for l, areas in reg.items():
        if not connected(areas, nb):
            return "region %r (areas %r) is not contiguous" % (l, areas)
    return None


# --------------------------------------------------------------- distances

def dist(metric, a, b):
    if metric in ("manhattan", "cityblock", "l1"):
        return sum(abs(x - y) for x, y in zip(a, b))
    if metric in ("euclidean", "l2"):
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    if metric in ("chebyshev_fn", "chebyshev_scalar"):
        return max(abs(x - y) for x, y in zip(a, b))
    if metric in ("sqeuclidean_fn",):
        return sum((x - y) ** 2 for x, y in zip(a, b))
    if metric == "cosine":
        na = math.sqrt(sum(x * x for x in a))
        nb = math.sqrt(sum(x * x for x in b))
        return 1 - sum(x * y for x, y in zip(a, b)) / (na * nb)
    raise KeyError(metric)


def center(kind, rows):
    cols = list(zip(*rows))
    if kind == "mean":
        return [sum(c) / len(c) for c in cols]
    if kind == "median":
        out = []
        for c in cols:
            s = sorted(c)
            m = len(s) // 2
            out.append(s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2)
        return out
    if kind == "max":
        return [max(c) for c in cols]
    raise KeyError(kind)


def reduce(kind, vals):
    vals = list(vals)
    if kind == "sum":
        return sum(vals)
    if kind == "max":
        return max(vals)
    if kind == "mean":
        return sum(vals) / len(vals)
    raise KeyError(kind)


def own_value(spec, rows):
    """The value of a region in a user's own objective function: any number,
    determined by the attributes of its areas."""
    text = "%d %r" % (spec["salt"], sorted([float(x) for x in r] for r in rows))
    return spec["base"] + zlib.crc32(text.encode()) // 7 % spec["range"]


def objective(spec, labels, attr):
    reg = regions(labels)
    if spec["kind"] == "own":
        return sum(own_value(spec, [attr[i] for i in areas]) for areas in reg.values())
    if spec["kind"] == "pairwise":
        return sum(dist(spec["metric"], attr[i], attr[j])
                   for areas in reg.values()
                   for i, j in itertools.combinations(areas, 2))
    vals = []
    for areas in reg.values():
        rows = [attr[i] for i in areas]
        c = center(spec["center"], rows)
        vals.append(reduce(spec["reduction"],
                           [dist(spec["metric"], r, c) for r in rows]))
    return reduce(spec["reduction"], vals)


def pair_matrix(metric, attr):
    n = len(attr)
    d = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = dist(metric, attr[i], attr[j])
    return d


# ------------------------------------------------------------------- moves

def feasible_moves(labels, nb):
    """All (area, new_region) such that the area borders on new_region and
    leaving its region neither empties nor disconnects it."""
    reg = regions(labels)
    res = []
    for a, l in enumerate(labels):
        rest = [x for x in reg[l] if x != a]
        if not rest or not connected(rest, nb):
            continue
        for r in sorted({labels[b] for b in nb[a]} - {l}):
            res.append((a, r))
    return res


def moved(labels, area, region):
    out = list(labels)
    out[area] = region
    return out


# ------------------------------------------------------------- brute force

def connected_subsets_containing(v, allowed, nb, limit=None):
    """All connected subsets of `allowed` (a set) which contain v."""
    out = []

    def rec(cur, frontier, banned):
        out.append(frozenset(cur))
        frontier = sorted(frontier)
        banned = set(banned)
        for f in frontier:
            new_front = (set(frontier) | (nb[f] & allowed)) - cur - {f} - banned
            rec(cur | {f}, new_front, banned)
            banned.add(f)
            frontier = [x for x in frontier if x != f]

    rec({v}, (nb[v] & allowed) - {v}, set())
    return out


def all_partitions(n, nb, p=None, ok=None):
    """Yield all partitions into contiguous regions (optionally exactly p
    regions, each satisfying ok(frozenset))."""

    def rec(remaining, parts):
        if not remaining:
            if p is None or len(parts) == p:
                yield list(parts)
            return
        if p is not None and len(parts) >= p:
            return
        v = min(remaining)
        for s in connected_subsets_containing(v, remaining, nb):
            if ok is not None and not ok(s):
                continue
            parts.append(s)
            yield from rec(remaining - s, parts)
            parts.pop()

    yield from rec(set(range(n)), [])


def best_p_partition(n, nb, p, d):
    """Minimum of the sum of pairwise within-region distances."""
    cost = {}

    def c(s):
        if s not in cost:
            cost[s] = sum(d[i][j] for i, j in itertools.combinations(sorted(s), 2))
        return cost[s]

    best = None
    for parts in all_partitions(n, nb, p):
        v = sum(c(s) for s in parts)
        if best is None or v < best:
            best = v
    return best


def best_max_p(n, nb, spat, threshold, d):
    """(max number of regions, minimal objective for it) or None."""
    k = len(spat[0])

    def ok(s):
        return all(sum(spat[i][e] for i in s) >= threshold[e] for e in range(k))

    cost = {}

    def c(s):
        if s not in cost:
            cost[s] = sum(d[i][j] for i, j in itertools.combinations(sorted(s), 2))
        return cost[s]

    best = None
    for parts in all_partitions(n, nb, None, ok):
        v = (-len(parts), sum(c(s) for s in parts))
        if best is None or v < best:
            best = v
    return None if best is None else (-best[0], best[1])
