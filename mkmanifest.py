#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of implemented checks."""
import json, os, re
T = {
 "C01": ("replay monitor over recorded runs: generated hostile programs recorded and replayed in fresh processes, file-system diff oracle", "Sampled plus exhaustive small bodies; trusts the OS file system and process isolation; CR at end of line excluded as documented."),
 "C02": ("outcome monitor over exhaustive and random (stored, given) pairs, colour and plain, with file-system diff oracle", "Exhaustive over small hostile alphabets, sampled beyond; formatted text is computed with kr/pretty, which is trusted."),
}
try:
    T.update(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json"))))
except FileNotFoundError:
    pass
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
done = [p for p in props if p in T]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "verifyield", "enable": "no hook is committed in /repo: checks that need yield points weave them into a temporary copy of snaps/*.go and build with -tags verifyield -overlay", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {p}", "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in done],
 "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in T],
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
