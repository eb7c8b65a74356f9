#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tool/registry.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPERTIES, TECHNIQUE
import registry
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for pid, p in PROPERTIES.items():
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": p["state"], "meaning": p["state"], "where": p["mech"][0][1]}],
                        "observe_at": [p["observe"]], "hook_needed": p["hook"] or None},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for pid, p in PROPERTIES.items():
    if p.get("na"):
        na.append({"property": pid, "reason": p["na"]})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s --tier quick" % pid,
        "thorough_cmd": "./check %s --tier thorough" % pid,
        "technique": TECHNIQUE, "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup"}
if getattr(registry, "HOOKS", None):
    m["hooks"] = registry.HOOKS
m.update({"checks": checks, "not_applicable": na, "notes": "See DESIGN.md."})
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")

# DESIGN.md
design = open(os.path.join(VERIF, "tool", "DESIGN.in.md")).read()
fixes = "\n".join("- " + l.strip()[len("fixed: "):] for l in open(os.path.join(VERIF, "known-findings.txt")) if l.startswith("fixed: "))
bugs = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    meta = json.load(open(os.path.join(VERIF, "seeded", b, "meta.json")))
    bugs.append("| %s | %s | %s | %s |" % (b, meta.get("caught_by", meta["property"]), meta["what_it_breaks"].replace("|", "\\|"),
                                     str(meta["needs"]).replace("|", "\\|")))
props = []
for pid, p in PROPERTIES.items():
    props.append("### %s %s\n\n%s\n\nQuantified %s.\n\n*Why tests cannot:* %s\n\n*How:* %s\n" % (
        pid, p["title"], p["statement"], p["text"], p["why"], p["how"]))
    if p["contracts"]:
        props.append("*Under contract in the source:* " + ", ".join("`%s`" % c for c in p["contracts"]) + "\n")
    own = p["assumptions"][:-len(registry.COMMON)]
    if own:
        props.append("*Bounds and assumptions:*\n" + "\n".join("- " + a for a in own) + "\n")
design = design.replace("@FIXES@", fixes).replace("@BUGS@", "\n".join(bugs)).replace(
    "@PROPS@", "Common to all:\n" + "\n".join("- " + a for a in registry.COMMON) + "\n\n" + "\n".join(props))
open(os.path.join(VERIF, "DESIGN.md"), "w").write(design.rstrip() + "\n")
