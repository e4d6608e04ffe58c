#!/bin/bash
# seedtest.sh ID [nocheck]: apply seeded/ID to /repo, build, run the stable tests, the demonstration and the check; undo
id=$1; d=/verif/seeded/$id; cd /repo
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
/verif/tools/blame.sh $d/patch.diff | grep -q ^OURS && echo "WARNING: removes lines of ours"
bash /opt/vp/build.sh >/tmp/st.log 2>&1
timeout 300 bash $d/demo.sh >/tmp/st.demo0 2>&1; echo "$id demo clean: $? (want 0)"
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
if bash /opt/vp/build.sh >/tmp/st.log 2>&1; then
  bash /opt/vp/test.sh /tmp/st.json >/tmp/st.tlog 2>&1; python3 /tmp/chk.py /tmp/st.json | tail -1
  timeout 300 bash $d/demo.sh >/tmp/st.demo1 2>&1; echo "$id demo patched: $? (want nonzero)"; tail -2 /tmp/st.demo1 | cut -c1-200
  [ "$2" = nocheck ] || (cd /verif; VERIF_SEED=1 VERIF_TIER=quick node sim/run.js $prop 2>&1 | tail -3 | cut -c1-400)
else echo "build fails"; tail -5 /tmp/st.log; fi
git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/st.log 2>&1
