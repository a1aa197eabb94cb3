#!/bin/bash
# try.sh PATCH ID [tier]: run a check against a scratch copy of /repo with PATCH applied
set -e
P=$(readlink -f "$1"); D=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo/rpp $D/; cp -a /repo/.git $D/ 2>/dev/null || true
(cd $D && git apply --include='rpp/*' "$P")
cd /verif; RPP_REPO=$D VERIF_WORK=$D/work python3 check.py "$2" "${3:-quick}" 2>&1 | tail -${LINES_OUT:-6}
find $D -delete
