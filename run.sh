#!/bin/bash
# run.sh ID [quick|thorough]: builds the analyser from /verif/sa and decides property ID on /repo's working tree.
cd "$(dirname "$0")/sa" || exit 2
. /opt/vp/env.sh
mkdir -p ../bin
t=../bin/sa.$$
trap 'rm -f "$t"' EXIT
go build -mod=vendor -o "$t" . || exit 2
[ "$1" = build ] && exit 0
"$t" check "$1" "${2:-quick}"
