#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import ast, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {"C01": "fault-injection fuzzing of cache files against the uncached grammar", "C02": "crash-point and I/O-fault enumeration plus stateful histories",
        "C03": "generated schedules (random delays, one-preemption enumeration)", "C04": "model-based histories (identity -> build count)",
        "C05": "enumerated and random link/special-file plants, before/after snapshots", "R01": "differential fuzzing of the C++ parser against the Python parser",
        "R02": "stateful call histories on the sanitized C++ runtime against the Python pipelines",
        "P04": "round-trip and mutation fuzzing", "P06": "metamorphic properties and a brute-force reference on generated grammars"}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    f = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "The check is not written yet."})
        continue
    consts = {}
    for node in ast.parse(open(f, encoding="utf-8").read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("LEVEL", "RULE", "ASSUMPTIONS"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": p["id"], "quick_cmd": "./check.sh %s" % p["id"], "thorough_cmd": "./check.sh %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": "property-based testing: " + TECH.get(p["id"], "generated inputs against an independent reader/metamorphic oracle"),
        "level": consts["LEVEL"], "level_note": "Sampled search, no proof: quiet means no counterexample among the generated cases. " + " ".join(consts.get("ASSUMPTIONS", [])),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks import the code under test from /repo's working tree and need no instrumentation there."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
