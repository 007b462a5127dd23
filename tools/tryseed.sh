#!/bin/bash
# development tool: tryseed.sh ID [PROP...]: build + tests + checks against one planted change (in /repo, undone afterwards)
id=$1; shift; props="$*"
[ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /repo && git apply /verif/seeded/$id/patch.diff || exit 9
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
python3 -c "
import json;a=json.load(open('/tmp/ts.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(map(str,a['passed']));w=set(map(str,b['stable']))
print('$id tests:', 'ok' if w<=p else 'FAIL %s'%(w-p))"
fi
for p in $props; do echo "$id $p: $(cd /verif; python3-vt run.py $p 2>&1 | tail -4 | cut -c1-300)"; done
git -C /repo checkout -- .
