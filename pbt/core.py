"""Shared by all checks: the context handed to a check, access to the code
under test, builders from JSON cases to region's objects, the worker loop."""
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
from scipy.sparse import csr_matrix  # noqa: E402

import ref  # noqa: E402

CASE_CPU_S = 60.0       # CPU seconds after which a case counts as endless


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Budget(BaseException):
    """The code under test used more objective evaluations than any
    terminating run of this size."""


class Endless(BaseException):
    """The case used more CPU time than CASE_CPU_S."""


class Ctx:
    """Collects what a case did."""

    def __init__(self):
        self.nontrivial = False
        self.tags = []

    def tag(self, *names):
        self.tags.extend(names)

    @staticmethod
    def call(what, fn, *args, **kwargs):
        """Call code under test which must not fail."""
        try:
            return fn(*args, **kwargs)
        except Budget as e:
            raise Violation("%s: %s" % (what, e)) from None
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
            raise Violation("%s raised %s: %s (%s)" % (
                what, type(e).__name__, str(e)[:200], where)) from None

    @staticmethod
    def rejects(what, fn, exc=(Exception,)):
        """Call code under test which must raise one of exc."""
        try:
            fn()
        except Budget as e:
            raise Violation("%s: %s" % (what, e)) from None
        except exc as e:
            return e
        except Exception as e:
            raise Violation("%s: raised %s (%s) instead of %s" % (
                what, type(e).__name__, str(e)[:200],
                "/".join(x.__name__ for x in exc))) from None
        raise Violation("%s: accepted instead of rejected" % what)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def raised_by_region(e):
    """The message if the exception comes out of the code under test (or a
    library called by it), not out of this machinery: valid arguments do not
    make it fail."""
    if isinstance(e, (Violation, MemoryError)):
        return None
    package = os.path.join(os.path.realpath(REPO), "region") + os.sep
    here = os.path.dirname(os.path.realpath(__file__)) + os.sep
    ours = [f for f in traceback.extract_tb(e.__traceback__)
            if os.path.realpath(f.filename).startswith((package, here))]
    if not ours or not os.path.realpath(ours[-1].filename).startswith(package):
        return None
    return "%s raised with valid arguments: %s (%s:%s)" % (
        type(e).__name__, str(e)[:200], os.path.basename(ours[-1].filename), ours[-1].lineno)


# ------------------------------------------------------------------ builders

def nbrs(g):
    return ref.nbrs_of(g["n"], g["edges"])


def adj_matrix(g, dtype=float):
    """Adjacency matrix of the graph.  The bits of g["enc"] choose another
    representation of the same contiguity: 1 = explicitly stored zeros, 2 =
    other weights than one, 4 = unsorted indices, 8 = areas stored as their own
    neighbours, 16 = a boolean or small integer matrix."""
    n = g["n"]
    enc = g.get("enc", 0)
    if enc & 16 and dtype is float:
        dtype = np.int8 if enc & 2 else bool
    rnd = random.Random(n * 1000 + len(g["edges"]))
    entries = {}
    for i, j in g["edges"]:
        entries[i, j] = entries[j, i] = 1
        if enc & 2:
            entries[i, j] = rnd.choice([1, 2, 3, .5, .25, 1e-7, 3e5] if dtype is float else [1, 2, 3])
            entries[j, i] = rnd.choice([entries[i, j], 1])
    if enc & 1 and n > 1:
        for _ in range(rnd.randint(1, 2 * n)):
            i, j = rnd.sample(range(n), 2)
            entries.setdefault((i, j), 0)
            if rnd.random() < .7:
                entries.setdefault((j, i), 0)
    if enc & 8:
        for i in range(n):
            if rnd.random() < .7:
                entries[i, i] = 1
    keys = sorted(entries)
    if enc & 4:
        rnd.shuffle(keys)
        keys.sort(key=lambda ij: ij[0])
    per_row = [0] * n
    for i, _ in keys:
        per_row[i] += 1
    indptr = np.cumsum([0] + per_row)
    return csr_matrix((np.array([entries[k] for k in keys], dtype=dtype),
                       np.array([k[1] for k in keys], dtype=np.int32),
                       indptr.astype(np.int32)), shape=(n, n))


def attr_array(attr):
    """The attributes as array.  A checksum of the values chooses another
    representation of the same numbers for about half of the cases: Fortran
    order, a strided view, a read-only array, a small integer type."""
    arr = np.array(attr)
    how = zlib.crc32(canonical(attr).encode()) % 10
    if how == 0:
        return np.asfortranarray(arr)
    if how == 1:
        wide = np.zeros((arr.shape[0] * 2,) + arr.shape[1:], dtype=arr.dtype)
        wide[::2] = arr
        return wide[::2]
    if how == 2:
        arr.flags.writeable = False
    if how in (3, 4) and arr.dtype.kind == "i" and arr.size:
        for dtype in ("uint8", "int8", "uint16", "int16", "int32"):
            info = np.iinfo(dtype)
            if info.min <= arr.min() and arr.max() <= info.max:
                return arr.astype(dtype)
    return arr


def labels_array(labels):
    return np.array(labels)


def labels_of(est, n, what="labels_"):
    """est.labels_ as list of plain numbers."""
    lab = est.labels_
    if lab is None:
        fail("%s is None after a successful fit", what)
    arr = np.asarray(lab)
    if arr.ndim != 1 or arr.shape[0] != n:
        fail("%s has shape %r for %d areas", what, arr.shape, n)
    return [x.item() for x in arr]


def _chebyshev(a, b=None):
    from scipy.spatial.distance import cdist
    return cdist(a, a if b is None else b, "chebyshev")


def _sqeuclidean(a, b=None):
    from scipy.spatial.distance import cdist
    return cdist(a, a if b is None else b, "sqeuclidean")


def metric_arg(name):
    return {"chebyshev_fn": _chebyshev, "sqeuclidean_fn": _sqeuclidean,
            "chebyshev_scalar": scalar_chebyshev}.get(name, name)


REDUCTIONS = {"sum": np.sum, "max": np.max, "mean": np.mean}
CENTERS = {"mean": np.mean, "median": np.median, "max": np.max}


def make_objective(spec, limit=None, log=None):
    """The objective function of the spec.  With `limit`, it raises Budget
    after that many evaluations; with `log` it appends
    ("update", labels, area, region, diff) / ("value", labels, value)."""
    from region.objective_function import (ObjectiveFunction, ObjectiveFunctionCenter,
                                           ObjectiveFunctionPairwise)
    class ObjectiveFunctionOwn(ObjectiveFunction):
        """What a user may write: any landscape over the regions."""

        def __call__(self, labels, attr):
            return float(ref.objective(spec, np.asarray(labels).tolist(), np.asarray(attr).tolist()))

        def update(self, moving_area, recipient_region, labels, attr):
            before = np.asarray(labels).tolist()
            after = list(before)
            after[moving_area] = np.asarray(recipient_region).item()
            rows = np.asarray(attr).tolist()
            return float(ref.objective(spec, after, rows) - ref.objective(spec, before, rows))

    base = {"pairwise": ObjectiveFunctionPairwise, "own": ObjectiveFunctionOwn,
            "center": ObjectiveFunctionCenter}[spec["kind"]]

    class Recorder(base):
        evals = 0
        zero = False

        def _count(self):
            self.evals += 1
            if limit is not None and self.evals > limit:
                raise Budget("did not terminate within %d objective evaluations" % limit)

        def __call__(self, labels, attr):
            self._count()
            res = super().__call__(labels, attr)
            if log is not None:
                log.append(("value", tuple(np.asarray(labels).tolist()), float(np.asarray(res).item())))
            return res

        def update(self, moving_area, recipient_region, labels, attr):
            self._count()
            res = super().update(moving_area, recipient_region, labels, attr)
            val = float(np.asarray(res).item())
            if abs(val) <= tol_for(attr.tolist()):
                self.zero = True
            if log is not None:
                log.append(("update", tuple(np.asarray(labels).tolist()),
                            int(moving_area), np.asarray(recipient_region).item(), val))
            return res

    if spec["kind"] != "center":
        return Recorder(metric_arg(spec["metric"]))
    return Recorder(metric_arg(spec["metric"]), center=CENTERS[spec["center"]],
                    reduction=REDUCTIONS[spec["reduction"]])


def make_heuristic(spec):
    from region.p_regions.azp import (AZP, AZPBasicTabu, AZPReactiveTabu,
                                      AZPSimulatedAnnealing)
    a = spec["algo"]
    seed = spec.get("seed")
    if a == "azp":
        return AZP(random_state=seed)
    if a == "sa":
        return AZPSimulatedAnnealing(
            init_temperature=spec["init_temperature"],
            max_iterations=spec["max_iterations"],
            sa_moves_term=spec["sa_moves_term"],
            nonmoving_steps_before_stop=spec["nonmoving_steps_before_stop"],
            repetitions_before_termination=spec["repetitions_before_termination"],
            random_state=seed)
    if a == "basic":
        return AZPBasicTabu(
            tabu_length=spec["tabu_length"],
            repetitions_before_termination=spec["repetitions_before_termination"],
            random_state=seed)
    if a == "reactive":
        return AZPReactiveTabu(spec["max_iterations"], spec["k1"], spec["k2"],
                               random_state=seed)
    raise KeyError(a)


def fit_kwargs(spec):
    """Without a cooling factor (None) the documented default is used."""
    return {"cooling_factor": spec["cooling_factor"]} if spec.get("cooling_factor") else {}


def fit_p(est, spec, prob, objective=None, dtype=float):
    """Fit a p-regions heuristic to a problem given as sparse matrix."""
    kw = fit_kwargs(spec)
    if objective is not None:
        kw["objective_func"] = objective
    start = None if prob["start"] is None else labels_array(prob["start"])
    fn = est.fit if hasattr(est, "fit") else est.fit_from_scipy_sparse_matrix
    fn(adj_matrix(prob["graph"], dtype), attr_array(prob["attr"]), prob["p"],
       initial_labels=start, **kw)


def scale_of(attr):
    return max([1.0] + [abs(x) for row in attr for x in row]) * len(attr)


def tol_for(attr, metric="euclidean"):
    """Absolute tolerance for sums of distances between these attributes:
    rounding only, except that scikit-learn's euclidean distances of nearly
    equal points are only good to 1e-8 of the points' magnitude."""
    eps = 1e-7 if metric in ("euclidean", "l2", "cosine") else 1e-11
    return eps * scale_of(attr) * max(1, len(attr))


@contextlib.contextmanager
def cbc_options(options):
    """Solve the models with other settings of CBC."""
    from pulp import solvers
    solve = solvers.COIN_CMD.actualSolve

    def with_options(self, lp, **kwargs):
        old = self.options
        self.options = list(old or []) + options
        try:
            return solve(self, lp, **kwargs)
        finally:
            self.options = old
    solvers.COIN_CMD.actualSolve = with_options
    try:
        yield
    finally:
        solvers.COIN_CMD.actualSolve = solve


CBC_RETRIES = [["preprocess off", "cuts off", "heuristics off", "presolve off"],
               ["cuts off"], ["preprocess off"], ["heuristics off"], []]


def confirm(check):
    """For checks that call CBC: the bundled solver sometimes answers wrongly,
    depending on things like the length of its input file's name, for models
    it solves correctly with e.g. preprocessing off (see DESIGN.md).  A
    violation counts only if it shows with each of these settings."""
    def confirmed(case, ctx):
        try:
            return check(case, ctx)
        except Violation as e:
            first = e
        except Exception as e:
            msg = raised_by_region(e)
            if msg is None:
                raise
            first = Violation(msg)
        for options in CBC_RETRIES:
            del ctx.tags[:]
            ctx.nontrivial = False
            try:
                with cbc_options(options):
                    check(case, ctx)
                ctx.tag("solver inconsistent")
                return
            except Violation:
                pass
            except Exception as e:
                if raised_by_region(e) is None:
                    raise
        raise first
    return confirmed


# ------------------------------------------------------------------- workers

def canonical(case):
    return json.dumps(case, sort_keys=True)


def digest(part, case):
    return hashlib.sha1((part + canonical(case)).encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise Endless("used more than %d s of CPU time without returning" % CASE_CPU_S)


def run_case(check, case):
    """Run one case; returns (ctx, message or None)."""
    ctx = Ctx()
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except Endless as e:
        return ctx, "ENDLESS " + str(e)
    except Exception as e:
        msg = raised_by_region(e)
        if msg is None:
            raise
        return ctx, msg
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Stop(BaseException):
    pass


def shrink_trace(generate, fails, trace, until):
    """Make the trace of choices of a failing case simpler while it fails."""
    import gen

    def attempt(cand):
        src = gen.TraceSource(None, cand)
        case = json.loads(canonical(generate(src)))
        return src.trace, case

    def size(t, case):
        return len(canonical(case)), len(t), sum(t)

    best, case = attempt(trace)
    best_size = size(best, case)
    tried = set()

    def step(cand):
        nonlocal best, best_size
        if time.monotonic() > until:
            raise Stop()
        t, c = attempt(cand)
        if tuple(t) in tried or size(t, c) >= best_size:
            return False
        tried.add(tuple(t))
        if fails(c):
            best, best_size = t, size(t, c)
            return True
        return False

    try:
        improved = True
        while improved:
            improved = False
            for width in (16, 8, 4, 2, 1):
                i = 0
                while i < len(best):
                    if step(best[:i] + best[i + width:]):
                        improved = True
                    else:
                        i += 1
            for i in range(len(best)):
                lo = 0
                while i < len(best) and lo < best[i]:
                    mid = (lo + best[i]) // 2 if lo else 0
                    if step(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                    else:
                        lo = mid + 1
    except Stop:
        pass


def run_part(part, seed, n_examples, deadline, shrink_s):
    """Search one part: a quarter of the cases by Hypothesis, the rest by the
    seeded wide search.  Returns counts and the smallest failure."""
    import random

    import gen
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as hst

    name, generate, check = part["name"], part["gen"], part["check"]
    res = {"part": name, "evaluations": 0, "nontrivial": [], "tags": {},
           "samples": [], "failure": None, "truncated": False}
    seen = set()
    first = [None]          # time of the first failure

    def evaluate(case):
        """Message if the case fails."""
        key = canonical(case)
        res["evaluations"] += 1
        ctx, msg = run_case(check, case)
        if msg is not None:
            if first[0] is None:
                first[0] = time.monotonic()
            if res["failure"] is None or len(key) <= len(canonical(res["failure"]["case"])):
                res["failure"] = {"case": case, "message": msg}
            if msg.startswith("ENDLESS"):
                raise Stop()
            return msg
        for t in ctx.tags:
            res["tags"][t] = res["tags"].get(t, 0) + 1
        if ctx.nontrivial:
            d = digest(name, case)
            if d not in seen:
                seen.add(d)
                if len(res["samples"]) < 2 and len(key) < 3000 and (
                        len(seen) in (3, 30) or n_examples < 30):
                    res["samples"].append({"part": name, "case": case})
        return None

    def by_hypothesis(count):
        @hst.composite
        def cases(draw):
            return generate(gen.DrawSource(draw, hst))

        def body(case):
            now = time.monotonic()
            if first[0] is None and now > deadline:
                res["truncated"] = True
                raise Stop()
            if first[0] is not None and now - first[0] > shrink_s:
                raise Stop()
            msg = evaluate(json.loads(canonical(case)))
            if msg is not None:
                raise Violation(msg)

        test = settings(
            max_examples=count, deadline=None, database=None,
            print_blob=False, report_multiple_bugs=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck))(
                hypothesis.seed(seed)(given(cases())(body)))
        try:
            test()
        except Violation:
            pass
        except Exception:
            # Hypothesis complains e.g. about flaky failures; our own record
            # of the failure counts, anything else is an error of the harness.
            if res["failure"] is None:
                raise

    def wide(count):
        for i in range(count):
            if time.monotonic() > deadline:
                res["truncated"] = True
                return
            src = gen.TraceSource(random.Random(seed * 1000003 + i))
            case = json.loads(canonical(generate(src)))
            if evaluate(case) is not None:
                shrink_trace(generate, lambda c: evaluate(c) is not None,
                             src.trace, first[0] + shrink_s)
                return

    try:
        n_hyp = n_examples // 4 if n_examples >= 8 else 0
        if n_hyp:
            by_hypothesis(n_hyp)
        if res["failure"] is None:
            wide(n_examples - n_hyp)
    except Stop:
        pass
    res["nontrivial"] = sorted(seen)
    return res


@contextlib.contextmanager
def silenced():
    """Send stdout and stderr (of the solver as well) to /dev/null."""
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for f in (*saved, null):
            os.close(f)


def scalar_chebyshev(a, b):
    """A metric as documented: two points (as rows) to a scalar."""
    return float(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float))))
