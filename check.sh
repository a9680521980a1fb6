#!/bin/bash
# check.sh PROPERTY[,PROPERTY...] [quick|thorough]: decide properties of /repo's current source.
cd "$(dirname "$0")" || exit 1
./build.sh || { for p in ${1//,/ }; do echo "VIOLATION property=$p replay=$PWD/build.sh"; done; exit 1; }
bin/analyzer -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"
rc=$?
[ $rc -le 1 ] && exit $rc
for p in ${1//,/ }; do echo "VIOLATION property=$p replay=$PWD/analyzer"; done
exit 1
