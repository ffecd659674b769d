#!/bin/bash
# builds /repo, runs the repository's tests and compares them with the baseline (development aid)
bash /opt/vp/build.sh >/tmp/gk_build.log 2>&1 || { echo BUILD FAILED; tail -30 /tmp/gk_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/gk_o.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/gk_o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print("stable missing:", miss, "passed", len(o['passed']), "failed", len(o['failed']))
P
