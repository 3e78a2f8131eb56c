#!/bin/bash
# Rebuild /repo and run its stable tests; prints the number that passed.
bash /opt/vp/build.sh 2>&1 | grep -E "error|FAILED" ; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
want=set(b['stable']);print(len(d['passed']),'missing',want-set(d['passed']))"; git -C /repo status --short
