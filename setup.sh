#!/bin/bash
# Warms the build cache; every check builds again from the current sources.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
. /opt/vp/env.sh 2>/dev/null
d=$(mktemp -d) || exit 1
(cd gv && go build -mod=vendor -buildvcs=false -o "$d/gv" .) && (cd harness && go build -mod=mod -buildvcs=false -o "$d/harness" .)
rc=$?
rm -rf "$d"
exit $rc
