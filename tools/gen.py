"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPS, NA  # noqa: E402
V = os.path.dirname(H)

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(V, "checks", p["id"] + ".py")) or p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python checks/{p['id']}.py",
        "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python checks/{p['id']}.py",
        "technique": p.get("technique", "symbolic execution of the traced JAX program (jaxpr) + SMT (z3) with "
                                        "replay of counterexamples on the real code"),
        "level": "other",
        "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
           "notes": "Hooks: none. Every check re-traces /repo's current source."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
