#!/bin/bash
# Runs the check of its property on a scratch copy with each planted change.
# (Developer tool.  The registered checks analyse /repo.)
cd "$(dirname "$0")/.." || exit 2
w=$(mktemp -d /tmp/seeds_XXXXXX)
for d in ${*:-seeded/*/}; do
  d=${d%/}; d=seeded/${d#seeded/}
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
  rm -rf "$w/repo"; mkdir "$w/repo"; cp -a /repo/autobound "$w/repo/"
  (cd "$w/repo" && git apply "$OLDPWD/$d/patch.diff") || { echo "$d: patch does not apply"; continue; }
  AUTOBOUND_REPO=$w/repo python3-vt check.py --property "$p" --tier ${TIER:-quick} > $w/out 2>&1; rc=$?
  echo "$d $p rc=$rc $(grep -m1 '^violated\|^undecided\|^analysis' $w/out | cut -c1-220)"
done
rm -rf "$w"
