#!/bin/bash
# seedtest.sh ID [check ...]: in a private copy of /repo (own mount namespace): apply the planted bug, build, run the stable
# tests, the demonstration (also on the unchanged tree) and the checks
if [ -z "$INNER" ]; then
  W=$(mktemp -d /tmp/seedlab.XXXXXX); trap 'rm -rf "$W"' EXIT
  cp -a /repo "$W/repo"; cp -a /verif/seeded/$1 "$W/s"
  INNER=$W unshare -Urm bash "$0" "$@" 2>&1; exit
fi
W=$INNER; id=$1; shift; S=$W/s
mount --bind $W/repo /repo || exit 9
cd /repo && git checkout -q -- . || exit 9
if [ -z "$NOCLEAN" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $S/demo.sh >$W/clean 2>&1; echo "$id: demo on clean tree: $?"; fi
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh >$W/build 2>&1 || { echo "$id: does not build"; grep -m3 error $W/build; exit 1; }
bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
W=$W python3 - <<'P'
import json,os
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=json.load(open(os.environ["W"]+'/t.json'))
print("stable tests broken:", sorted(s-set(d['passed'])))
P
timeout 300 bash $S/demo.sh >$W/bad 2>&1; echo "$id: demo with patch: $?"; tail -2 $W/bad | cut -c1-300
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ "$1" = none ] && exit
for c in "$@"; do (cd /verif && VERIF_SEED=${SEED:-1} timeout 1500 python3 run.py check $c --tier quick >$W/check 2>&1; echo "$id: check $c: exit $?"; grep -A1 VIOLATION $W/check | head -4 | cut -c1-300; tail -1 $W/check); done
