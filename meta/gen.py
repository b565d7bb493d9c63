#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json, harness/checks.json and DESIGN.md from meta/props.py and meta/DESIGN.head.md."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/meta")
from props import PROPS, NA
with open(R + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p.get("state", [])],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 engine/driver.py setup",
       "checks": [{"property": p["id"], "quick_cmd": "python3 engine/driver.py " + p["id"],
                   "thorough_cmd": "python3 engine/driver.py %s --tier thorough" % p["id"],
                   "technique": "symbolic execution of the compiled code (LLVM IR pass) with Z3/cvc5 deciding path conditions and obligations; native replay of counterexamples",
                   "level": "model_checking", "level_note": p["note"]} for p in PROPS],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
       "notes": "Checks encode /repo's current sources on every run (clang IR through engine/SymPass.cpp). No hooks are needed in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.json."}
json.dump(man, open(R + "/MANIFEST.json", "w"), indent=1)
ck = {}
for p in PROPS:
    c = dict(p["check"]); c["bounds"] = p["bounds"]; c["functions"] = [b for a, b in p["mech"]]
    ck[p["id"]] = c
json.dump(ck, open(R + "/harness/checks.json", "w"), indent=1)
head = open(R + "/meta/DESIGN.head.md").read()
out = []
for p in PROPS:
    out.append("### %s — %s\n\n%s\n\n*Decided by*: %s\n\n*Bounds / outside*: %s\n" % (p["id"], p["title"], p["statement"], p["how"], p["bounds"]))
na = ["- **%s** (%s): %s" % (p["id"], p["title"], p["reason"]) for p in NA]
head = head.replace("@@PROPS@@", "\n".join(out)).replace("@@NA@@", "\n".join(na) or "None so far.")
kf = json.load(open(R + "/known_findings.json"))
fl = ["## Findings on the original tree\n"]
for k in kf:
    fl.append("- %s: property=%s %s %s" % (k["status"], k["property"], k.get("commit", ""), k["what"]))
sd = R + "/meta/seeded_results.json"
sr = json.load(open(sd)) if os.path.exists(sd) else {}
sl = ["## Planted bugs and what catches them\n", "| bug | property | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")) if os.path.isdir(R + "/seeded") else []:
    m = json.load(open(R + "/seeded/" + d + "/meta.json"))
    sl.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), sr.get(d, "?")))
head = head.replace("@@FINDINGS@@", "\n".join(fl)).replace("@@SEEDED@@", "\n".join(sl))
for p in PROPS + NA:
    for f in p["files"]: assert os.path.exists("/repo/" + f), f
open(R + "/DESIGN.md", "w").write(head)
print(len(PROPS), "claimed,", len(NA), "not applicable")
