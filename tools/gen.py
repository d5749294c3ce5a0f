#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and the registered checks"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NOT_APPLICABLE
from checks import registry

TECH = "gated-value dataflow analysis over type-resolved MIR (static)"
NOTE = ("Every path of the analysed entry points is covered at once: the analysis interprets the resolved MIR of the current tree into gated value "
        "terms (no path sampling, no input bound except where the evidence says so) and compares them with the specified terms. Trusted: the models of "
        "std/cosmwasm/cw-storage-plus calls in engine/models.py, rustc's MIR, the platform semantics (a failed call is rolled back), injectivity of the hash. "
        "How: ")
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
missing = [i for i in ids if i not in registry.CHECKS and i not in NOT_APPLICABLE]
extra = [i for i in registry.CHECKS if i not in ids]
if missing or extra:
    print("properties without check:", missing, "checks without property:", extra)
    sys.exit(1)
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m engine.dump", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "All checks read /repo's current source through the rustc driver in driver/ (nightly rustc_private), built offline by setup_cmd; nothing of /repo is run. No hooks in /repo."}
for i in ids:
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "technique": c.get("technique", TECH),
                            "level": c.get("level", "other"), "level_note": c.get("note", NOTE) + c["explain"]})
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties", len(m["checks"]), "checks")
# DESIGN.md sections between markers
d = open(os.path.join(H, "tools", "DESIGN.in.md")).read()
out = []
for p in PROPS:
    i = p["id"]
    out.append("### %s %s\n%s\n" % (i, p["title"], ("*Decided by:* " + registry.CHECKS[i]["explain"] + " *Bounds:* " + registry.CHECKS[i].get("bounds", "none") + ".") if i in registry.CHECKS else "*Not applicable:* " + NOT_APPLICABLE[i]))
d = d.replace("@@PROPERTIES@@", "\n".join(out))
d = d.replace("@@NA@@", "\n".join("- **%s** %s: %s" % (p["id"], p["title"], NOT_APPLICABLE[p["id"]]) for p in PROPS if p["id"] in NOT_APPLICABLE) or "(none)")
kf = [l.strip() for l in open(os.path.join(H, "known-findings.txt"))]
d = d.replace("@@FIXED@@", "\n".join("- " + l[7:] for l in kf if l.startswith("fixed:")))
d = d.replace("@@KNOWN@@", "\n".join("- " + l[7:] for l in kf if l.startswith("known:")) or "(none)")
rows = []
sd = os.path.join(H, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mp = os.path.join(sd, s, "meta.json")
    if os.path.exists(mp):
        mm = json.load(open(mp))
        rows.append("| %s | %s | %s | %s |" % (s, mm["property"], mm["what_it_breaks"].replace("|", "/"), ", ".join(mm.get("caught_by", [])) or "not caught"))
d = d.replace("@@SEEDED@@", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(H, "DESIGN.md"), "w").write(d)
