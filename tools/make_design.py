"""Writes DESIGN.md from tools/design_head.md, tools/design_props.md, the
check modules (rules, counts, assumptions) and seeded/*/meta.json together with
tools/seeded_results.json (written by hand from seedtool.py check)."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "pbt"))
import core  # noqa: E402,F401

tools = os.path.join(ROOT, "tools")
head = open(os.path.join(tools, "design_head.md")).read()
notes = {}
for block in open(os.path.join(tools, "design_props.md")).read().split("\n### ")[1:]:
    pid, text = block.split("\n", 1)
    notes[pid.strip()] = text.strip()
tail = open(os.path.join(tools, "design_tail.md")).read()

out = [head]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("props." + p["id"].lower())
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    out.append(notes[p["id"]] + "\n")
    out.append("*What is judged.* " + m.RULE + "\n")
    out.append("*Cases (quick / thorough).* " + ", ".join(
        "`%s` %d / %d" % (x["name"], x["quick"], x["thorough"]) for x in m.PARTS) + ".\n")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("*Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
out.append(tail)
res = json.load(open(os.path.join(tools, "seeded_results.json")))
out.append("| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    meta = json.load(open(d))
    bid = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s | %s |" % (
        bid, meta["property"], meta["what_it_breaks"].replace("|", "/"), meta["needs"].replace("|", "/"),
        res.get(bid, "not run yet")))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
