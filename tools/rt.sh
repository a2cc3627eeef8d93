#!/bin/bash
# run the repository's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(d):
    for k in ('passed','stable','tests'):
        if k in d:
            v=d[k]
            return set(v if isinstance(v,list) else [x for x in v])
base=passed(b); now=passed(o)
print(len(base),len(now),'missing:',sorted(base-now)[:20])
P
git -C /repo status --short
