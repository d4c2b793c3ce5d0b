#!/bin/bash
# rebuild /repo (or $1) and compare the stable tests with the baseline
bash /opt/vp/build.sh >/tmp/bld.log 2>&1 || { tail -5 /tmp/bld.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/tst.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in a.items()}); print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
base=set(a.get('passed') or a.get('stable') or a.get('pass') or [])
print("missing:", sorted(base-set(o.get('passed') or o.get('pass') or []))[:20])
P
