#!/bin/bash
# seedcheck.sh ID [check args]: runs the property's check on a scratch copy of /repo with the planted change applied
id=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
w=/tmp/seedrun/$id; rm -rf "$w"; mkdir -p "$w"
git -C /repo archive HEAD | tar x -C "$w"
(cd "$w" && git init -q && git apply "/verif/seeded/$id/patch.diff") || exit 3
cp /verif/evidence/$p.json /tmp/seedrun/$id.ev.bak 2>/dev/null
VERIF_REPO="$w" timeout 900 python3-vt /verif/check.py "$p" "$@"; rc=$?
cp /tmp/seedrun/$id.ev.bak /verif/evidence/$p.json 2>/dev/null
rm -rf "$w"
echo "seed $id ($p): exit $rc"
