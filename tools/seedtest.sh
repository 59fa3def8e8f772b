#!/bin/bash
# tools/seedtest.sh ID [check...] : in scratch copies of /repo and /verif (bound over the originals in a private mount namespace), builds
# and tests the planted change, runs its demo without and with it, and the checks
if [ -z "$SEEDNS" ]; then exec env SEEDNS=1 unshare -m --propagation private "$0" "$@"; fi
ID=$1; shift; W=/tmp/seedtest.$ID.$$; mkdir -p $W/tmp; trap 'cd /; umount /repo /verif 2>/dev/null; rm -rf "$W"' EXIT
cp -a /repo $W/repo; mkdir $W/verif; cp -a $(find /verif -mindepth 1 -maxdepth 1 ! -name .git) $W/verif/
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo; git checkout -q -- .; S=/verif/seeded/$ID
bash /opt/vp/build.sh > $W/log 2>&1
bash $S/demo.sh > $W/demo0 2>&1; echo "$ID demo clean: $?"; tail -2 $W/demo0
git -C /repo apply $S/patch.diff || exit 2
bash /opt/vp/test.sh $W/seed.json > $W/log 2>&1; tail -1 $W/log
python3 - $W/seed.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1])); s=set(b.get('passed') or b.get('stable') or b.get('tests'))
print('stable tests lost:', sorted(s-set(r['passed'])))
P
bash $S/demo.sh > $W/demo1 2>&1; echo "$ID demo patched: $?"; tail -2 $W/demo1
cd /verif
for c in "$@"; do timeout 900 python3-vt checks/$c.py > $W/out.$c 2>&1; echo "$ID $c exit $?"; grep -A1 VIOLATION $W/out.$c | head -4 | cut -c1-250; grep NO-ANSWER $W/out.$c | cut -c1-300; done
