#!/bin/bash
# Applies planted bugs to a scratch copy of /repo one at a time and runs their property's check against the copy.
# usage: seeds.sh [id...]
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for id in "$@"; do
  w=$(mktemp -d); cp -a /repo/src "$w/src"
  (cd "$w" && patch -s -p1 < "$here/seeded/$id/patch.diff") || echo "patch failed"
  prop=$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  echo "== $id: $(cd "$here" && VERIF_REPO="$w" VERIF_EVIDENCE="$w/ev" timeout 900 python3-vt check.py "$prop" quick | grep -v '^undecided\|^not disch' | tail -3)"
  rm -rf "$w"
done
