#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in tools/plist.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plist import P, NA  # noqa: E402

ROOT = os.path.dirname(HERE)
TECH = ("contract-based deductive verification: preconditions and postconditions on /repo's functions, every obligation "
        "generated from the LLVM IR of the current source and discharged by the simplifier, z3 or cvc5")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P + [n for n in NA]:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(d["title"]) <= 80, d["title"]
        assert len(re.findall(r"[.;](?= [A-Z]|$)", d["statement"])) <= 3, d["statement"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in P:
    bounded = p.get("level") == "other"
    checks.append(dict(
        property=p["id"], quick_cmd="python3-vt vf/run.py %s" % p["id"],
        thorough_cmd="VERIF_TIER=thorough python3-vt vf/run.py %s" % p["id"],
        technique=TECH + ("; the functions are executed symbolically on inputs bounded in size (bounded stand-in)" if bounded else ""),
        level="other" if bounded else "proof", level_note=p["note"]))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
# DESIGN.md, from "## 2." on
out = ["## 2. Properties and how each is decided\n"]
for p in P:
    out.append("### %s %s\n%s\n*Decided by*: %s\n*Anchors*: %s\n" % (
        p["id"], p["title"], p["statement"], p["note"], "; ".join("%s (%s)" % a for a in p["mech"])))
out.append("## 3. Planted bugs\n")
out.append("Each was confirmed to build, to pass the 49 stable tests and to fail its demonstration. `tools/trybugs.sh` runs "
           "the checks against them; all are caught by the check of their property (quick tier).\n")
out.append("| bug | property | what it needs | what breaks |\n|---|---|---|---|")
sd = os.path.join(ROOT, "seeded")
for b in sorted(os.listdir(sd)):
    mj = json.load(open(os.path.join(sd, b, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (b, mj["property"], mj["needs"], mj["what_it_breaks"]))
notes = os.path.join(HERE, "notes.md")
out.append("\n" + open(notes).read() if os.path.exists(notes) else "")
out.append("## 5. Not applicable\n")
out += ["* %s %s: %s" % (n["id"], n["title"], n["reason"]) for n in NA] or ["(none)"]
dp = os.path.join(ROOT, "DESIGN.md")
s = open(dp).read()
s = s[:s.index("## 2. Properties")] + "\n".join(out) + "\n"
open(dp, "w").write(s)
