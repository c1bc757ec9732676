#!/bin/bash
# Development helper: trybug.sh ID [CHECK..] - runs checks against a scratch copy with the planted bug.
id=$1; shift
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
d=/tmp/trybug.$id; rm -rf /tmp/trybug.$id; cp -a /repo $d; (cd $d && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || exit 3
for c in ${@:-$prop}; do
  SIM_REPO=$d PYTHONPATH=$d VERIF_SEED=1 /opt/venv/bin/python -B /verif/check.py $c --tier quick > /tmp/trybug.$id.$c.out 2>&1
  echo "$id $c exit $? $(grep -a VIOLATION /tmp/trybug.$id.$c.out | head -1)"; grep -a ' violates:' /tmp/trybug.$id.$c.out | cut -c1-300; tail -1 /tmp/trybug.$id.$c.out
done
rm -rf /tmp/trybug.$id
