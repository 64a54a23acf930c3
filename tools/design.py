#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/props.py and tools/design_tail.md (called by hand after either changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from oracles import ORACLE
H = os.path.dirname(os.path.abspath(__file__))
out = [open(H + "/design_head.md").read().rstrip(), ""]
for p in PROPS:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    out.append("*Specified:* " + p["statement"])
    out.append("")
    out.append("*Decided against:* " + ORACLE[i])
    out.append("")
    out.append("*Bounds:* " + p["bounds"] + " *Outside:* " + p["outside"])
    out.append("")
    out.append("*Why not tests:* " + p["why"])
    out.append("")
FIRST_MISSED = "box-depth-guard bytes-extend option-known skip-drains autobox-display derive-underscore i64-halves take-reserve vpad-late-close float-neg-zero lim-slice-512 memo-u64-halves memo-big-segment option-known-width".split()
rows = ["| planted bug | property | needs | at first |", "|---|---|---|---|"]
S = os.path.dirname(H) + "/seeded"
for d in sorted(os.listdir(S)):
    m = json.load(open(S + "/" + d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], "missed" if d in FIRST_MISSED else "caught"))
t = open(H + "/design_tail.md").read().replace("@SEEDS@", "\n".join(rows))
out.append(t)
open(os.path.dirname(H) + "/DESIGN.md", "w").write("\n".join(out))
missing = [p["id"] for p in PROPS if p["id"] not in ORACLE]
assert not missing, missing
