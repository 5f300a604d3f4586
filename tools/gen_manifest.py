#!/usr/bin/env python3
"""MANIFEST.json from the properties list and the checks that exist."""
import json, os, importlib.util
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitors on the real kernels: dense reference oracle, operand-mutation and buffer-reuse monitors over random call histories",
 "C02": "AddressSanitizer + UBSan rebuild of the extensions driven through Python, canary-guarded buffers, and a MemorySanitizer C driver",
}
DEFAULT = "runtime monitoring: randomised and hostile workloads on the real code, every result judged by an independent oracle"
NOTES = {}
if os.path.exists(os.path.join(H, "tools", "notes.json")):
    NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
                           technique=NOTES.get(i, {}).get("technique") or TECH.get(i, DEFAULT), level="exploration",
                           level_note=NOTES.get(i, {}).get("note") or "Random and adversarial executions of the real code; the oracle is exact or a reference computation with a stated tolerance. No claim beyond the explored executions."))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na") or "check under construction in this session"))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks", len(na), "na")
