#!/bin/bash
# development tool: trychk.sh ID...: run the check of the property each planted change breaks, against a patched copy
for id in "$@"; do
p=${PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
W=$(mktemp -d); cp -a /repo "$W/repo"; (cd "$W/repo" && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || echo "$id: patch fails"
for q in $p; do echo "$id $q: $(cd /verif; VERIF_REPO=$W/repo timeout 880 python3-vt run.py $q 2>&1 | tail -3 | cut -c1-260 | tr '\n' '|')"; done
find "$W" -delete
done
