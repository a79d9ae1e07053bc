#!/bin/bash
# developer aid: trybug.sh ID [--no-tests] [--demo-only] [PROPERTY...]
# Validates seeded/ID in a private mount namespace (a scratch copy bound over
# /repo): the demonstration on the clean tree and with the patch, the stable
# tests with the patch, then the checks of the property (or of those given).
ID=$1; shift
TESTS=1; CHECKS=1; PROPS=()
for a in "$@"; do case $a in --no-tests) TESTS=0;; --demo-only) TESTS=0; CHECKS=0;; --no-checks) CHECKS=0;; *) PROPS+=("$a");; esac; done
B=/verif/seeded/$ID
[ ${#PROPS[@]} = 0 ] && PROPS=("$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")")
D=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a /repo "$D/repo"; mkdir "$D/reports" "$D/evidence" "$D/replays" "$D/tmp" "$D/bug"
cp "$B"/* "$D/bug/"; rm -f "$D/bug/patch.diff" "$D/bug/meta.json"
cat > "$D/in.sh" <<I
mount --bind $D/repo /repo; mount --bind $D/reports /opt/vp/reports
mount --bind $D/evidence /verif/evidence; mount --bind $D/replays /verif/replays
cd /repo
bash $D/bug/demo.sh >$D/demo0.log 2>&1; echo "$ID demo on clean tree: \$? (want 0)"
git apply $B/patch.diff || { echo "$ID patch does not apply"; exit; }
bash /opt/vp/build.sh >$D/build.log 2>&1 || echo "$ID build fails"
bash $D/bug/demo.sh >$D/demo1.log 2>&1; echo "$ID demo with patch: \$? (want not 0): \$(tail -1 $D/demo1.log | cut -c1-200)"
if [ $TESTS = 1 ]; then
  bash /opt/vp/test.sh $D/out.json >$D/test.log 2>&1
  /opt/venv/bin/python - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('$D/out.json'))
bad = sorted(set(b['stable']) - set(o['passed']))
print('$ID tests:', len(bad), 'not passing', bad[:8])
P
fi
if [ $CHECKS = 1 ]; then cd /verif; for p in ${PROPS[@]}; do
  s=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py \$p --tier quick >$D/\$p.log 2>&1; r=\$?
  echo "$ID check \$p: exit \$r in \$((\$(date +%s)-s)) s: \$(grep -a VIOLATION $D/\$p.log | head -1 | cut -c1-300)"
  [ \$r = 1 ] || tail -3 $D/\$p.log | cut -c1-300
done; fi
I
unshare -Urm bash "$D/in.sh"
rm -rf "$D"
