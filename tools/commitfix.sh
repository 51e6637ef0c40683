#!/bin/bash
# usage: commitfix.sh "fix: message"  -- runs build+tests in /repo then commits
cd /repo || exit 1
gofmt -l . | grep -v testdata
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
import sys
bs=b.get('stable') or b.get('passed') or b.get('pass') or b
ps=set(o.get('passed') or o.get('pass') or [])
miss=[t for t in bs if t not in ps]
print('missing',miss); sys.exit(1 if miss else 0)
P
git commit -qam "$1" && git log --oneline | head -1
