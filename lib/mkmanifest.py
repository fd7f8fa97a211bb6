#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the registered checks (lib/props.py) and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(__file__))
from vf import VERIF
from props import CHECKS
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NOTE = ("TLC checks the specification exhaustively within its constants; every distinct trace of the real code, run under a "
        "controlled scheduler (preemption-bounded search plus random schedules, x86-TSO store buffers, data-race and heap "
        "monitoring) over the listed client programs, must be a behaviour of that specification. Bounded by the client "
        "programs, schedules and constants reported in the evidence.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        specs = sorted({s.spec for s in c["suites"]} | {m.spec for m in c["models"]})
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                           technique="TLA+ specification checked with TLC; trace validation of the real code under a controlled scheduler (" + ", ".join(specs) + ")",
                           level="model_checking", level_note=c.get("note", NOTE)))
    else:
        na.append(dict(property=i, reason="its specification and driver are not built yet"))
m = dict(version=1, setup_cmd="bin/check build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the drivers compile /repo's sources with -fsanitize=thread against a runtime of our own (harness/vrt.cpp).")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
