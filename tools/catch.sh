#!/bin/bash
# catch.sh ID [PID...]: run the quick check(s) against the patched copy
id=$1; shift
w=/tmp/plantw/$id
rm -rf $w/verif $w/repo; mkdir -p $w; cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$id/patch.diff || echo APPLY
mkdir $w/verif; cp -r /verif/run.py /verif/harness /verif/KNOWN_FINDINGS /verif/properties.jsonl /verif/MANIFEST.json $w/verif/
pids="$@"; [ -z "$pids" ] && pids=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd $w/verif
for p in $pids; do
 VERIF_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 run.py $p quick > $w/$p.out 2>&1; rc=$?
 echo "$id $p rc=$rc $(grep -m1 -v '^VIOL\|^ \|^$' $w/$p.out | cut -c1-160)"
done
rm -rf $w/verif $w/repo
