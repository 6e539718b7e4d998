#!/bin/bash
# dev helper: run the stable tests on /repo's working tree
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(o['passed']);print('MISSING',m) if m else print('stable ok')"
