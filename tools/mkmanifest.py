#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    from tools.manifest_text import TECH, NOTE, REASON
    for p in props:
        i = p["id"]
        f = os.path.join(V, "nmtv", "checks", i.lower()+".py")
        if os.path.exists(f) and i in TECH:
            checks.append({
                "property": i,
                "quick_cmd": "./run_check.py %s quick" % i,
                "thorough_cmd": "./run_check.py %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH[i],
                "level": "exploration",
                "level_note": NOTE[i]})
        else:
            na.append({"property": i, "reason": REASON.get(
                i, "Check not built yet; runtime monitoring applies.")})
    m = {"version": 1,
         "setup_cmd": "./run_check.py --setup",
         "hooks": {
             "guard": "NMTV_HOOKS (none needed: no instrumentation is "
             "committed to /repo; sanitizers, the OpenMP scheduling shim and "
             "the monitors are added at build or import time from /verif)",
             "enable": "nothing to enable; checks compile /repo's current C "
             "sources outside /repo with the sanitizer or shim flags",
             "source_commits": []},
         "checks": checks,
         "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as o:
        json.dump(m, o, indent=1)
        o.write("\n")


main()
