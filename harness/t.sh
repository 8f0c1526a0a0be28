#!/bin/bash
# run the repository's stable tests against /repo and report any baseline test not passing
bash /opt/vp/test.sh /tmp/t-out.json >/tmp/t-log.txt 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/t-out.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable'):
            if k in x: return set(x[k])
    return set(x)
bp,op=passed(b),passed(o)
print(len(bp),'baseline;',len(bp&op),'pass; missing:',sorted(bp-op)[:20])
P
git -C /repo status --short | head
