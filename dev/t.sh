cd /repo; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
d=set(map(str,b['stable']))-set(map(str,o['passed'])); print('missing',len(d),list(d)[:8])
P
