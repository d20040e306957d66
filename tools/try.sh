#!/bin/bash
# tools/try.sh [ID...]: run the check of each planted bug's property against a
# scratch copy of /repo with the bug applied.
V=${V:-/verif}
cd $V/vc && go build -o /tmp/rv . || exit 1
[ $# -gt 0 ] || set -- $(ls $V/seeded)
for b in "$@"; do
  W=$(mktemp -d)
  cp -a /repo "$W/repo"
  git -C "$W/repo" apply $V/seeded/$b/patch.diff || echo "no apply $b"
  if grep -q xdr.y $V/seeded/$b/patch.diff; then (cd "$W/repo" && . <(sed "s#cd /repo#cd $W/repo#" /opt/vp/env.sh) && go generate . >/dev/null 2>&1); fi
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")
  for q in ${CHECKS:-$p}; do
  t0=$(date +%s)
  timeout 900 /tmp/rv -repo "$W/repo" -verif $V -check $q > "$W/log" 2>&1; rc=$?
  v=$(grep -c '^VIOLATION' "$W/log")
  echo "$b $q rc=$rc $(grep '^VIOLATION' "$W/log" | sed 's/.*json//') $(( $(date +%s) - t0 ))s | $(grep 'failing input' "$W/log" | head -1 | cut -c1-110) | $(grep 'failed obl' "$W/log" | head -1 | cut -c1-150)"
  [ $rc = 1 ] || tail -3 "$W/log" | cut -c1-300
  done
  find "$W" -delete
done
