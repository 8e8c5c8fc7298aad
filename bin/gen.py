#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "bin"))
from checks.props import PROPS
from checks.registry import CHECKS
from checks.na import NA
assert len({p["id"] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    assert p["id"] in CHECKS or p["id"] in NA, p["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/vf.py setup", "checks": [], "not_applicable": []}
ids = {p["id"] for p in PROPS}
for k, c in CHECKS.items():
    assert k in ids, k
    m["checks"].append({
        "property": k,
        "quick_cmd": "python3 bin/vf.py check %s --tier quick" % k,
        "thorough_cmd": "python3 bin/vf.py check %s --tier thorough" % k,
        "technique": c.get("technique", "symbolic execution of the library's LLVM IR with Z3 (symx), counterexamples replayed on an ASan build"),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("note", "Holds for every value of the symbolic inputs within the stated bounds; trusts clang's IR, the symx engine, Z3 and the listed stubs.") +
        ((" Bounds: " + c["bounds"]) if c.get("bounds") else "")})
for k, r in NA.items():
    if k in ids:
        m["not_applicable"].append({"property": k, "reason": r})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# ------------------------------------------------------------------ DESIGN.md
from checks.oracle import ORACLE
out = []
for p in PROPS:
    k = p["id"]
    if k not in CHECKS:
        out += ["### %s — %s" % (k, p["title"]), "", "Not applicable: " + NA[k], ""]
        continue
    c = CHECKS[k]
    out += ["### %s — %s" % (k, p["title"]), "", p["statement"], "", "*Decided by:* " + ORACLE[k], "", "*Bounds:* " + c["bounds"] + "."]
    if c.get("assumptions"):
        out += ["", "*Assumed:* " + "; ".join(c["assumptions"]) + "."]
    out += ["", "*Outside:* " + (c["outside"] if c.get("outside") else "larger sizes and longer histories than the bounds") + ".", ""]
    if c["queries"]:
        out += ["*Queries:* " + ", ".join("`%s` (%s%s)" % (x["name"], x["src"], "".join(" %s=%s" % d for d in x["defs"].items())) for x in c["queries"][:9]) +
                (" and %d more" % (len(c["queries"]) - 9) if len(c["queries"]) > 9 else "") + ".", ""]
seeded = ["| Bug | Property | Needs | Caught by |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
try:
    caught = json.load(open(os.path.join(V, "checks", "caught.json")))
except OSError:
    caught = {}
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    try:
        d = json.load(open(os.path.join(sd, n, "meta.json")))
    except OSError:
        continue
    seeded.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/"), caught.get(n, "?")))
if os.path.isdir(sd):
    t = open(os.path.join(V, "checks", "design.md")).read()
    t = t.replace("@@PROPERTIES@@", "\n".join(out).rstrip()).replace("@@SEEDED@@", "\n".join(seeded))
    open(os.path.join(V, "DESIGN.md"), "w").write(t)
