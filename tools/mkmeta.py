#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from tools/props.py.
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
NA = getattr(__import__("props"), "NA", [])
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        y = {k: v for k, v in x.items() if k != "note"}
        assert len(y["title"]) <= 80, y["id"]
        f.write(json.dumps(y) + "\n")
na = {n[0]: n[1] for n in NA}
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "One checker (checker/, Go, go/ssa) decides every property from /repo's current source; check.sh builds it when needed. No hooks in /repo."}
for x in sorted(P, key=lambda x: x["id"]):
    if x["id"] in na:
        continue
    m["checks"].append({"property": x["id"], "quick_cmd": "bash check.sh %s quick" % x["id"], "thorough_cmd": "bash check.sh %s thorough" % x["id"],
        "technique": "static analysis: path-sensitive interprocedural provenance dataflow over go/ssa (abstract interpretation, loop fixpoints, no solver)" if not x.get("tech") else x["tech"],
        "level": "other", "level_note": x["note"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

import glob, re
rules = {}
for f in glob.glob(os.path.join(root, "checker", "*.go")):
    for m_ in re.finditer(r'register\(&Check\{ID: "(C\d+)".*?Rule: "((?:[^"\\\\]|\\\\.)*)"', open(f).read()):
        rules[m_.group(1)] = (m_.group(2), os.path.basename(f))
out = open(os.path.join(here, "design_head.md")).read()
out += "## 4. Properties: what is decided and how\n\n"
for x in sorted(P, key=lambda x: x["id"]):
    out += "### %s %s\n\n%s\n\n" % (x["id"], x["title"], x["statement"])
    if x["id"] in na:
        out += "Not applicable. %s\n\n" % na[x["id"]]
        continue
    r, f = rules[x["id"]]
    out += "*Rule* (%s): %s.\n\n*Method*: %s\n\n*Bounds*: none on inputs, rounds or schedules; precision as in section 1.1.\n\n*Why tests cannot*: %s\n\n" % (f, r, x["note"], x["why_tests_cant"])
out += open(os.path.join(here, "design_tail.md")).read()
out += "## 6. Planted bugs and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
caught = dict(l.strip().split(": ", 1) for l in open(os.path.join(here, "caught.txt")) if ": " in l)
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    j = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    out += "| %s | %s | %s | %s |\n" % (n, j["property"], j["needs"].replace("|", "/").replace("\n", " "), caught.get(n, "?"))
open(os.path.join(root, "DESIGN.md"), "w").write(out)
