#!/bin/bash
# apply a planted bug, run the check of its property (or the given ones), undo. usage: runseed.sh ID [PROP...]
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
rm -rf /tmp/rs_$id && cp -a /repo /tmp/rs_$id
git -C /tmp/rs_$id apply "$PWD/seeded/$id/patch.diff" || exit 2
for p in $props; do
  PYVC_REPO=/tmp/rs_$id VERIF_SEED=1 VF_EVIDENCE=/tmp/rs_ev_$id /opt/venv/bin/python vf.py "$p" --tier quick 2>&1 | grep -E "VIOLATION|obligations disch|Traceback|Error" | sed "s/^/$id $p: /"
done
rm -rf "/tmp/rs_$id"
