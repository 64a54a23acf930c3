#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks/bounds.json from tools/props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Assumes: LLVM IR emitted by the installed rustc (release-like optimisation, panic=abort) means what the engine says it means "
         "(sampled paths are replayed natively each run to test this); Z3's verdicts; the stubs listed in the evidence. "
         "Says nothing beyond the stated bounds. ")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]} if p.get("state") else {}),
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
na = {i for i, _ in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 checks/run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "symbolic execution of the compiled code's LLVM IR, every path decided by Z3",
                   "level": "model_checking",
                   "level_note": "Every execution within the bounds is decided. Bounds: " + p["bounds"] + " Outside: " + p["outside"] + " " + TRUST})
json.dump({"version": 1, "setup_cmd": "python3 checks/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: the harness crate in /verif/harness uses only the public API", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
           "notes": "checks/run.py PROPERTY regenerates the LLVM IR of /repo's working tree, explores it with engine/ (tsx), replays counterexamples natively."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: {"bounds": p["bounds"], "outside": p["outside"], "assumptions": p.get("assume", [])} for p in PROPS},
          open(os.path.join(ROOT, "checks", "bounds.json"), "w"), indent=1)
