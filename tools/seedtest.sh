#!/bin/bash
# runs the check of each planted bug's property (or the checks given in CHECKS) against that bug.
# usage: seedtest.sh [id...]     works on a copy of /repo, not on /repo
cd /verif/sa && . /opt/vp/env.sh && go build -mod=vendor -o /tmp/sa.seedtest . || exit 2
ids="$*"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
mkdir -p /tmp/seedrun
for id in $ids; do
 w=/tmp/seedrun/$id; cp -a /repo $w && (cd $w && git apply /verif/seeded/$id/patch.diff) || { echo "$id: does not apply"; continue; }
 p=${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
 for c in $p; do
  SA_REPO=$w SA_VERIF=/tmp/v timeout 900 /tmp/sa.seedtest check $c ${TIER:-quick} > /tmp/seedrun/$id.$c.out 2>&1; rc=$?
  echo "$id $c rc=$rc $(grep -m1 -E 'VIOLATION' /tmp/seedrun/$id.$c.out | cut -c1-60) $(grep -m1 -v -E '^(VIOLATION|OK)' /tmp/seedrun/$id.$c.out | cut -c1-200)"
 done
 rm -rf $w
done
