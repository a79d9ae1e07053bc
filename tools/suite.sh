#!/bin/bash
# developer aid: run the suite and list stable tests that do not pass
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
/opt/venv/bin/python - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/out.json'))
bad = sorted(set(b['stable']) - set(o['passed']))
print(len(b['stable']), 'stable,', len(bad), 'not passing', bad[:20])
P
