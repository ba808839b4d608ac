#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; executions of the real library, driven by generated and model-derived operation sequences, are validated step by step against the specification by TLC"
NOTE = ("Every recorded step (result code, outputs, objects destroyed, callbacks run, memory left) must be one the specification allows. "
        "Exhaustive within the small models listed in the evidence, seeded random sampling beyond. Trusted: the driver in lib/, TLC, AddressSanitizer for memory accesses.")
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "hooks": {"guard": "none", "enable": "no hook is needed: the checks compile /repo/src unmodified, with lib/shim.c interposed at link time (--wrap)",
               "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": TECH, "level": "model_checking", "level_note": props.notes.get(i, NOTE)} for i in ids if i in props.table],
     "not_applicable": [{"property": i, "reason": "the check is not built yet"} for i in ids if i not in props.table],
     "notes": "See DESIGN.md. Specification: spec/*.tla (entry points CCS.tla, Trace.tla, MC*.tla)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
