#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
    "P30": "interpenetration of two fitted B-spline solids depends on runtime geometry (root finding, NURBS fitting, the CAD kernel); no sound static argument in reach bounds it",
    "P31": "validity, closedness and positive volume of a solid are decided inside the OpenCascade kernel at run time; the source of the library does not determine them",
    "P32": "the fitting error of the NURBS conversion is a numerical quantity of an optimisation at run time; no static bound is available",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": getattr(m, "TECH", "static analysis: abstract interpretation of the library source (heap, value numbers and fact domains)"),
            "level": "other", "level_note": m.EXPLAIN + ". Rule: " + m.RULE, "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks, "not_applicable": na,
           "notes": "All checks read the source under /repo/src/gggears (and gui/, examples/ where stated) on every run; nothing of the library is imported or executed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
