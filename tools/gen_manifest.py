#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_CLAIMED
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NOT_CLAIMED.get(p, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "true",
           "hooks": {"guard": "DOTS_VERIF", "enable": "no hooks are used: the checks build /repo's own sources unchanged, with sanitizers", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Each check builds its driver and the library from /repo's working tree under /verif/build (about a minute from scratch), runs it in eight shards under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, and compares what its monitors saw with an independent model."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
