cd /repo; bash /opt/vp/test.sh /tmp/o.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
ok=set(o.get('passed',o.get('pass',[]))) if isinstance(o,dict) else set()
print('stable', len(b), 'missing', sorted(b-ok))
P
git -C /repo status --short
