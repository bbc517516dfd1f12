#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.py."""
import json
exec(open('/verif/tools/claims.py').read())
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for pid in ids:
    if pid not in CLAIMED:
        continue
    tech, note = CLAIMED[pid]
    cmd = CMD.get(pid, "./check.sh %s" % pid)
    checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": tech, "level": "exploration",
                   "level_note": note, "evidence_file": "evidence/%s.json" % pid})
na = [{"property": i, "reason": globals().get('NA', {}).get(i, "check not built yet")} for i in ids if i not in CLAIMED]
m = {"version": 1, "setup_cmd": "./check.sh --build-only"}
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = checks
m["not_applicable"] = na
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
