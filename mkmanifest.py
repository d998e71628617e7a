#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, subprocess
T = json.load(open('/verif/checks.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
checks = []
for p in props:
    t = T.get(p['id'])
    if not t: continue
    checks.append({
        "property": p['id'],
        "quick_cmd": f"VERIF_TIER=quick ./check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "technique": t['technique'],
        "level": "exploration",
        "level_note": t['note'],
    })
na = [{"property": p['id'], "reason": T['not_applicable'][p['id']]} for p in props if p['id'] in T.get('not_applicable', {})]
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {
        "guard": "cfg(dune_verif)",
        "enable": "harness/dunebin/build.rs passes --cfg dune_verif when it compiles /repo/src/bin.rs as a library",
        "source_commits": ["399d899", "a713c06", "fbfcdee"],
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks")
