#!/usr/bin/env python3
"""Builds the engine, the standard library's bitcode, and a first copy of everything a check reuses."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
os.environ.pop("VERIF_TIER", None)
B.engine()
B.std()
todo = {}
for c in json.load(open(os.path.join(B.ROOT, "MANIFEST.json")))["checks"]:
    for n, v in B.harnesses(c["property"], "thorough"):
        todo.setdefault(v, c["property"].lower())
for v, mod in sorted(todo.items()):
    try:
        B.bitcode(v, mod)  # dependencies per configuration
        f = B.native("release" if v == "rel" else "debug", mod, v)
        os.unlink(f)
    except B.BuildError as e:
        print("warning: %s: %s" % (v, str(e)[:500]))
print("setup done")
