#!/bin/bash
# tools/seedcheck.sh ID [full]: validates seeded/ID in a scratch copy (applies, demo passes before / fails after, optional: tests) and runs its check
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed_$ID
rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"
cd "$W" && git init -q . && git apply --check "$S/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 2; }
(cd "$W" && REPO=$W bash "$S/demo.sh" >/tmp/seed_$ID.log 2>&1) ; a=$?
git apply "$S/patch.diff"
(cd "$W" && REPO=$W bash "$S/demo.sh" >>/tmp/seed_$ID.log 2>&1) ; b=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != nocheck ]; then
(cd /verif && VC_REPO=$W VC_NOEV=1 /opt/veriftools/pyvenv/bin/python3 engine/check.py $P > /tmp/seed_$ID.check 2>&1); c=$?
fi
echo "$ID prop=$P demo before=$a after=$b check=$c $(grep VIOLATION /tmp/seed_$ID.check)"
rm -rf "$W"
