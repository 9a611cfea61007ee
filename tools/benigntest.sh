#!/bin/bash
# runs all checks (or CHECKS) against each behaviour-preserving edit in /verif/benign: they must stay quiet
cd /verif/sa && . /opt/vp/env.sh && go build -mod=vendor -o /tmp/sa.benign . || exit 2
ids="$*"; [ -z "$ids" ] && ids=$(ls /verif/benign | sed 's/\.diff$//')
mkdir -p /tmp/benignrun
for id in $ids; do
 w=/tmp/benignrun/$id; rm -rf $w; cp -a /repo $w && (cd $w && git apply /verif/benign/$id.diff) || { echo "$id: does not apply"; continue; }
 for c in ${CHECKS:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")}; do
  t0=$(date +%s); SA_REPO=$w SA_VERIF=/tmp/v timeout 900 /tmp/sa.benign check $c ${TIER:-quick} > /tmp/benignrun/$id.$c.out 2>&1; rc=$?
  [ $rc != 0 ] && echo "ALARM $id $c rc=$rc [$(wc -l < /tmp/benignrun/$id.$c.out)] $(head -1 /tmp/benignrun/$id.$c.out | cut -c1-300)" || echo "$id $c quiet $(( $(date +%s)-t0 ))s"
 done
 rm -rf $w
done
