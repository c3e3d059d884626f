#!/bin/bash
# chk.sh: compares a results file with the stable tests
python3 - "$1" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(d):
    if isinstance(d,dict):
        for k in ('passed','stable','pass'):
            if k in d: return set(d[k])
    return set(d)
print(list(b)[:4], list(r)[:4])
B=passed(b);R=passed(r)
print("missing:",B-R)
P
