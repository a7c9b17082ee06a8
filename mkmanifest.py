#!/usr/bin/env python3
"""Writes MANIFEST.json, and the table in DESIGN.md, from properties.jsonl
and checks.json."""
import json
conf = json.load(open("checks.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
NOTE = ("Every path of the harnesses over the real code (LLVM IR of /repo's current tree) is decided by SMT over all values within the stated bounds; "
        "trusted: rustc's IR generation, the pgsym executor (sampled paths are replayed natively), z3/cvc5. ")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "see DESIGN.md; no hooks in /repo are needed (no guard, only fix: commits)"}
for p in props:
    i = p["id"]
    if i in conf:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i,
                            "thorough_cmd": "python3 run.py check %s thorough" % i,
                            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver",
                            "level": "model_checking", "level_note": NOTE + conf[i].get("bounds", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": conf["_not_claimed"].get(i, "no check built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

rows = ["## Properties, bounds and what lies outside", ""]
for p in props:
    i = p["id"]
    if i in conf:
        c = conf[i]
        rows += ["**%s %s.** Bounds: %s. Outside: %s.%s" % (i, p["title"], c["bounds"], c["outside"], " " + c["note"] if "note" in c else ""), ""]
    else:
        rows += ["**%s %s.** Not claimed: %s." % (i, p["title"], conf["_not_claimed"].get(i, "no check built yet")), ""]
a, b = "<!-- table -->\n", "<!-- end of table -->\n"
d = open("DESIGN.md").read()
d = d[:d.index(a) + len(a)] + "\n".join(rows) + d[d.index(b):]
open("DESIGN.md", "w").write(d)
