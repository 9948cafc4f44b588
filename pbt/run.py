"""Entry point of every check:  run.py P01 [--tier quick|thorough]
                              run.py --replay FILE
See DESIGN.md for what it does."""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.path.insert(0, HERE)

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore",
       "PYTHONPATH": HERE}


def load(prop):
    import core  # noqa: F401  (sets up sys.path)
    return importlib.import_module("props." + prop.lower())


def sub_seed(*parts):
    return zlib.crc32(":".join(map(str, parts)).encode())


def worker(args):
    import core
    mod = load(args.property)
    t0 = time.monotonic()
    deadline = t0 + args.soft
    out = {"parts": [], "error": None}
    with core.silenced():
        try:
            for part in mod.PARTS:
                if args.parts and part["name"] not in args.parts.split(","):
                    continue
                total = part["thorough" if args.tier == "thorough" else "quick"]
                total = max(1, int(total * args.scale)) if total else 0
                n = total // args.of + (1 if args.index < total % args.of else 0)
                if n == 0:
                    continue
                t1 = time.monotonic()
                st = core.run_part(
                    part, sub_seed(args.seed, args.property, part["name"], args.index),
                    n, deadline, args.shrink)
                st["wall"] = time.monotonic() - t1
                out["parts"].append(st)
                with open(args.out, "w") as f:      # keep what is known so far
                    json.dump(out, f)
                if st["failure"]:
                    break
        except BaseException:
            import traceback
            out["error"] = traceback.format_exc()
    with open(args.out + ".tmp", "w") as f:
        json.dump(out, f)
    os.replace(args.out + ".tmp", args.out)
    sys.stdout.flush()
    os._exit(0)


def known_findings(prop, mod):
    """Listed findings that the current code still shows."""
    import core
    res = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: property=%s " % prop):
                continue
            key = line.split()[2].rstrip(":")
            with core.silenced():
                try:
                    shown = mod.KNOWN[key]()
                except Exception:       # fails in another way now
                    shown = False
            if shown:
                res.append(line[len("known: "):])
    return res


def master(args):
    t0 = time.monotonic()
    prop = args.property
    mod = load(prop)
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    env = dict(os.environ, **ENV, TMPDIR=scratch)
    procs = []
    rc = 2
    try:
        for i in range(args.of):
            out = os.path.join(scratch, "w%d.json" % i)
            cmd = [PY, "-B", os.path.join(HERE, "run.py"), prop, "--worker",
                   "--index", str(i), "--of", str(args.of), "--tier", args.tier,
                   "--seed", str(args.seed), "--out", out, "--soft", str(args.soft),
                   "--shrink", str(args.shrink), "--scale", str(args.scale),
                   "--parts", args.parts or ""]
            procs.append((out, subprocess.Popen(
                cmd, env=env, cwd=scratch, stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"),
                start_new_session=True)))
        hard = t0 + args.soft + args.shrink + 100
        late = set()
        for i, (out, p) in enumerate(procs):
            try:
                p.wait(max(1, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                late.add(i)
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        results, errors = [], []
        for i, (out, p) in enumerate(procs):
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r["error"]:
                    errors.append("worker %d: %s" % (i, r["error"]))
            elif i not in late:
                errors.append("worker %d ended with %s: %s" % (
                    i, p.returncode, open(out + ".err").read()[-2000:]))
            if i in late:
                errors.append("worker %d was stopped after the time limit" % i)
        rc = report(args, mod, results, errors, time.monotonic() - t0)
    finally:
        for _, p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(args, mod, results, errors, wall):
    prop = args.property
    distinct = set()
    parts = {}
    failures = []
    samples = []
    truncated = False
    for r in results:
        for st in r["parts"]:
            distinct.update(st["nontrivial"])
            p = parts.setdefault(st["part"], {"evaluations": 0, "tags": {}, "d": set(), "wall": 0})
            p["evaluations"] += st["evaluations"]
            p["d"].update(st["nontrivial"])
            p["wall"] = max(p["wall"], round(st.get("wall", 0), 1))
            for t, c in st["tags"].items():
                p["tags"][t] = p["tags"].get(t, 0) + c
            truncated |= st["truncated"]
            if st["failure"]:
                failures.append((st["part"], st["failure"]))
            if sum(s["part"] == st["part"] for s in samples) < 2:
                samples.extend(st["samples"][:1])
    for p in parts.values():
        p["distinct_nontrivial"] = len(p.pop("d"))
        p["tags"] = dict(sorted(p["tags"].items()))
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts.values()),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:8],
            "parts": parts,
            "truncated_by_time": truncated,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (
        prop, args.tier, args.seed, evidence["coverage"]["evaluations"],
        len(distinct), wall, " (truncated by time)" if truncated else ""))
    for name, p in parts.items():
        print("  %-28s %6d cases %6d non-trivial %6.1fs  %s" % (
            name, p["evaluations"], p["distinct_nontrivial"], p["wall"],
            " ".join("%s=%d" % kv for kv in p["tags"].items())))
    for line in known_findings(prop, mod):
        print("KNOWN-FINDING: " + line)
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f[1]["case"])))
        name, f = failures[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (prop, name, args.seed))
        with open(path, "w") as out:
            json.dump({"property": prop, "part": name, "message": f["message"],
                       "case": f["case"]}, out, indent=1)
        print("  " + f["message"])
        if not args.no_evidence:
            print("  replay with: %s %s --replay %s" % (PY, os.path.join(HERE, "run.py"), path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR of the check:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    if not distinct:
        print("ERROR of the check: no non-trivial case", file=sys.stderr)
        return 2
    return 0


def replay(path):
    import core
    data = json.load(open(path))
    mod = load(data["property"])
    part = next(p for p in mod.PARTS if p["name"] == data["part"])
    with core.silenced():
        _, msg = core.run_case(part["check"], data["case"])
    if msg is None:
        print("property %s holds for %s" % (data["property"], path))
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1


def selftest():
    """Nothing has to be built; check that everything needed is there."""
    import core  # noqa: F401
    import hypothesis
    import region.p_regions.azp
    with core.silenced():
        import region.max_p_regions.heuristics  # noqa: F401
    print("hypothesis", hypothesis.__version__, "region from", region.__file__ or region.__path__)
    return 0


def main():
    if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))):
        os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ))
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--of", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--out")
    ap.add_argument("--soft", type=float, default=None)
    ap.add_argument("--shrink", type=float, default=45)
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--parts", default=None)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    args = ap.parse_args()
    if args.soft is None:
        args.soft = 3600 if args.tier == "thorough" else 480
    if args.selftest:
        return selftest()
    if args.replay:
        if os.environ.get("PYTHONHASHSEED") != "0":
            env = dict(os.environ, **ENV)
            os.execve(PY, [PY, "-B"] + sys.argv, env)
        return replay(args.replay)
    if args.worker:
        return worker(args)
    return master(args)


if __name__ == "__main__":
    sys.exit(main())
