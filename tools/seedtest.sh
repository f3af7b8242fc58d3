#!/bin/bash
# seedtest.sh ID [-c] [props…]: tries a planted bug in a private mount namespace: /repo is replaced by a patched copy.
#   builds, runs the stable tests, runs the demo on the clean and on the patched tree; with props: runs those checks on the patched tree
set -u
S=/verif/seeded/$1; shift
if [ "${SEEDNS:-}" = "" ]; then
    mkdir -p /tmp/seed/repo /tmp/seed/evidence
    rsync -a --delete /repo/ /tmp/seed/repo/ || exit 9
    SEEDNS=1 exec unshare -Urm bash "$0" "$(basename $S)" "$@"
fi
mount --bind /tmp/seed/repo /repo
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh > /tmp/seed/build0.log 2>&1 || { echo "clean build failed"; exit 9; }
cp -a $S /tmp/seed/demo
if [ "${NODEMO:-}" = "" ]; then
timeout 300 bash /tmp/seed/demo/demo.sh > /tmp/seed/demo0.log 2>&1; echo "demo on the clean tree: $?"
git apply $S/patch.diff || { echo "patch does not apply"; rm -rf /tmp/seed/demo; exit 9; }
bash /opt/vp/build.sh > /tmp/seed/build1.log 2>&1 || { echo "patched build failed"; grep error /tmp/seed/build1.log | head; rm -rf /tmp/seed/demo; exit 9; }
timeout 300 bash /tmp/seed/demo/demo.sh > /tmp/seed/demo1.log 2>&1; echo "demo on the patched tree: $?"
bash /opt/vp/test.sh /tmp/seed/o.json > /tmp/seed/test.log 2>&1; tail -1 /tmp/seed/test.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seed/o.json'))
p=set(o['passed']); print("stable tests broken:", [t for t in b if t not in p][:8])
P
else git apply $S/patch.diff; fi
rm -rf /tmp/seed/demo
for p in "$@"; do
    VERIF_BUILD=/tmp/seed/vbuild VERIF_EVIDENCE=/tmp/seed/evidence python3 /verif/check.py $p > /tmp/seed/check-$p.log 2>&1; echo "check $p: $? ($(grep -c ^VIOLATION /tmp/seed/check-$p.log) violations)"; grep -B1 ^VIOLATION /tmp/seed/check-$p.log | cut -c1-200 | head -6
done
