#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks (CLAIMS) and the properties."""
import json, os, subprocess, sys
ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, ROOT + "/tools")
from claims import CLAIMS, NOT_APPLICABLE, HOOK_COMMITS

checks = []
for pid, (technique, note) in CLAIMS.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 tools/check.py {pid}",
        "thorough_cmd": f"python3 tools/check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" when building /repo's crates (tools/build.py)", "source_commits": HOOK_COMMITS},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
for p in props:
    if p not in CLAIMS and p not in NOT_APPLICABLE:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
assert not (set(CLAIMS) - set(props)), set(CLAIMS) - set(props)
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
