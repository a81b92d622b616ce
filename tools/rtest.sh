#!/bin/bash
# run the repository's stable tests on the working tree and compare with the baseline
bash /opt/vp/build.sh >/tmp/rb.log 2>&1 || { tail -30 /tmp/rb.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/rt.json'))
miss=b-set(r['passed'])
print("stable tests:",len(b),"missing:",sorted(miss)[:10],"failed:",r['failed'][:5])
P
git -C /repo status --short | head -5
