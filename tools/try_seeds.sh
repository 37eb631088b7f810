#!/bin/bash
# try_seeds.sh [ids...]: run the claimed check of each planted bug against a copy of /repo with the bug applied, shown at /repo
# to that process only; print caught / MISSED.  JOBS=n runs n at a time (the checks use several cores each).
V="$(cd "$(dirname "$0")/.." && pwd)"
one() {
  V="$1"; s="$2"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
  w=$(mktemp -d /tmp/codeprep-try-XXXXXX); cp -a /repo "$w/repo"; cp -a "$V" "$w/verif"
  git -C "$w/repo" apply "$V/seeded/$s/patch.diff" || { echo "$s: patch does not apply"; rm -rf "$w"; return; }
  out=$(unshare -Urm bash -c 'mount --bind "$1/repo" /repo && mount --bind "$1/verif" /verif && cd /verif && exec ./run.sh "$2" "$3"' x "$w" "$p" "${TIER:-quick}" 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$s ($p): caught  $(grep -m1 'violation:' <<<"$out" | cut -c1-200)"; else echo "$s ($p): MISSED rc=$rc"; tail -3 <<<"$out" | cut -c1-300; fi
  rm -rf "$w"
}
export -f one
printf '%s\n' ${@:-$(ls "$V/seeded")} | xargs -P "${JOBS:-2}" -I{} bash -c 'one "$@"' x "$V" {}
