#!/bin/bash
# against.sh [-R] <patch file | commit of /repo> <property>...   run checks against a scratch copy of the library
R=""; [ "$1" = -R ] && { R=-R; shift; }
P=$1; shift
D=$(mktemp -d /tmp/against-XXXXXX)
cp -a /repo/src /repo/script "$D"/
if [ -f "$P" ]; then cat "$P" > "$D/p.diff"; else git -C /repo show "$P" -- src script > "$D/p.diff"; fi
(cd "$D" && patch -s $R -p1 --no-backup-if-mismatch < p.diff) || { echo "patch failed"; rm -rf "$D"; exit 9; }
find "$D" -name __pycache__ -prune -exec rm -rf {} +
for p in "$@"; do
  out=$(DST_REPO_SRC=$D/src DST_EVIDENCE=$D/ev /verif/check $p ${AGAINST_ARGS}); rc=$?
  echo "$p rc=$rc $(echo "$out" | grep -v '^VIOLATION' | tail -2 | head -1 | cut -c1-220)"
done
rm -rf "$D"
