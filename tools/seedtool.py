"""Development tool (no check uses it): build and judge planted bugs.

  seedtool.py make SPECS.py [ID...]    SPECS.py defines BUGS, a list of dicts
      id, property, file, old, new (or edits=[(file, old, new)...]),
      needs, breaks, demo
  seedtool.py check [ID...] [--props P01,P02|all]

Everything happens in copies below /tmp/seedtool, which are removed again."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BASE = tempfile.mkdtemp(prefix="seedtool-")


def env(tree):
    e = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e


def copy(name):
    d = os.path.join(BASE, name)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def tests(tree):
    out = os.path.join(BASE, os.path.basename(tree) + ".xml")
    js = out + ".json"
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore",
                    "--tb=short", "--timeout=300", "--continue-on-collection-errors",
                    "--ignore=region/skater/test_skater.py", "-o", "junit_family=xunit2",
                    "--junitxml=" + out], cwd=tree, env=env(tree), capture_output=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", js, "junit:" + out], capture_output=True)
    return sorted(STABLE - set(json.load(open(js))["passed"]))


def demo(bug, tree):
    d = os.path.join(BASE, "demo-%s-%s" % (bug, os.path.basename(tree)))
    shutil.copytree(os.path.join(SEEDED, bug), d)
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, env=env(tree),
                       capture_output=True, text=True, timeout=300)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-600:]


DEMO_SH = '''#!/bin/bash
# exit 0 if the property holds for the example in demo.py, 1 otherwise
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def make(bug):
    dest = os.path.join(SEEDED, bug["id"])
    try:
        tree = copy(bug["id"])
        for f, old, new in bug.get("edits") or [(bug["file"], bug["old"], bug["new"])]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug["id"], "old text found %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        os.makedirs(dest, exist_ok=True)
        diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True).stdout
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
        open(os.path.join(dest, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(dest, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]},
                  open(os.path.join(dest, "meta.json"), "w"), indent=1)
        rc, o = demo(bug["id"], "/repo")
        if rc != 0:
            return bug["id"], "demo fails on the clean tree: " + o
        rc, o2 = demo(bug["id"], tree)
        if rc == 0:
            return bug["id"], "demo passes with the bug"
        bad = tests(tree)
        if bad:
            return bug["id"], "tests fail: %s" % bad[:3]
        return bug["id"], "ok (demo: %s)" % o2.strip().splitlines()[-1][:150]
    except Exception as e:
        return bug["id"], repr(e)


def check(ids, props):
    for bid in ids:
        meta = json.load(open(os.path.join(SEEDED, bid, "meta.json")))
        tree = copy(bid)
        r = subprocess.run(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")], cwd=tree)
        assert r.returncode == 0, bid
        v = os.path.join(BASE, bid + "-verif")
        shutil.copytree(os.path.join(ROOT, "pbt"), os.path.join(v, "pbt"))
        shutil.copy(os.path.join(ROOT, "known-findings.txt"), v)
        res = []
        todo = ["P%02d" % i for i in range(1, 31) if os.path.exists(
            os.path.join(ROOT, "pbt/props/p%02d.py" % i))] if props == "all" else (
            props.split(",") if props else [meta["property"]])
        for p in todo:
            r = subprocess.run([PY, "-B", os.path.join(v, "pbt/run.py"), p], cwd=v,
                               env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED=os.environ.get("VERIF_SEED", "1")),
                               capture_output=True, text=True)
            line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            msg = [x for x in r.stdout.splitlines() if x.startswith("  ") and " cases " not in x[:45]]
            res.append("%s:%s" % (p, "caught" if r.returncode == 1 and line else "rc%d" % r.returncode))
            if props != "all":
                print("   ", bid, p, r.returncode, (msg[0].strip()[:160] if msg else (r.stderr[-300:] if r.returncode == 2 else "")))
        print(bid, meta["property"], " ".join(x for x in res if not x.endswith("rc0")) or "MISSED", flush=True)
        shutil.rmtree(tree)
        shutil.rmtree(v)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "make":
            ns = {}
            exec(open(a[1]).read(), ns)
            bugs = [b for b in ns["BUGS"] if not a[2:] or b["id"] in a[2:]]
            with cf.ThreadPoolExecutor(7) as ex:
                for bid, msg in ex.map(make, bugs):
                    print(bid, msg, flush=True)
        else:
            props = None
            if "--props" in a:
                i = a.index("--props")
                props = a[i + 1]
                del a[i:i + 2]
            check(a[1:] or sorted(os.listdir(SEEDED)), props)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)


main()
