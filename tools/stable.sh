#!/bin/bash
# run the stable tests and report any stable test that does not pass
bash /opt/vp/test.sh /tmp/stable_o.json 2>&1 | tail -1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable_o.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed'):
            if k in x: return names(x[k])
        return {k for k,v in x.items() if v in ('passed',True)}
    return set(x)
print("missing:", sorted(names(b)-names(o))[:10])
P
