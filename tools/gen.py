#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
NA = getattr(props, "NOT_APPLICABLE", {})
with open(V + "/properties.jsonl", "w") as f:
    for p in list(props.PROPS.values()) + [dict(v, id=k) for k, v in NA.items()]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None},
        }) + "\n")
checks = []
for p in props.PROPS.values():
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": "bounded symbolic execution of the LLVM IR compiled from /repo (own engine irx, Z3 QF_BV/QF_FP "
                     "queries per branch and check), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every value within the bounds; nothing is claimed outside them. Bounds: " + p["bounds"],
        "evidence_file": "evidence/%s.json" % p["id"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the harness uses the public API of the crates only",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in NA.items()],
    "notes": "Every command rebuilds the engine and the IR of /repo's working tree under .build (git-ignored). "
             "known-findings.json lists the repaired defects.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
