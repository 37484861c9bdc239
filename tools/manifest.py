#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from vp/checks.py and properties.jsonl."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vp import checks
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(checks, "NOT_APPLICABLE", {})
out = {"version": 1, "setup_cmd": "python3 -m vp setup",
  "hooks": checks.HOOKS,
  "checks": [{"property": p, "quick_cmd": f"python3 -m vp {p} quick", "thorough_cmd": f"python3 -m vp {p} thorough", "evidence_file": f"evidence/{p}.json",
    "technique": "symbolic execution of the real code's LLVM IR with SMT (Z3) deciding every branch and assertion; counterexamples replayed natively",
    "level": "model_checking", "level_note": checks.NOTES.get(p, checks.DEFAULT_NOTE)} for p in props if p in checks.CHECKS],
  "not_applicable": [{"property": p, "reason": NA.get(p, "no check has been built for it yet")} for p in props if p not in checks.CHECKS],
  "notes": "See DESIGN.md. All checks share one executor (engine/), one MPI and file model (rt/), and harnesses (harness/)."}
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
