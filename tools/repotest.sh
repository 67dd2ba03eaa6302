#!/bin/bash
# Runs the repository's tests and reports stable tests that no longer pass.
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
/opt/venv/bin/python - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/rt.json'))
bad=[t for t in b if t not in o['passed']]
print("stable failing:", bad)
PY
