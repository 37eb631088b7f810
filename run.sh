#!/bin/bash
# run.sh <property-id> [quick|thorough]   -- one check, in a scratch HOME which is removed afterwards
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export CODEPREP_REPO="${CODEPREP_REPO:-/repo}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/codeprep-verif-$id-XXXXXX")" || exit 4
export VERIF_SCRATCH="$scratch"
mkdir -p "$scratch/home" "$scratch/tmp"
export HOME="$scratch/home" TMPDIR="$scratch/tmp"
unset XDG_CACHE_HOME XDG_CONFIG_HOME XDG_DATA_HOME
export PYTHONPATH="$CODEPREP_REPO:$here/harness" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 LANG=C.UTF-8 PYTHONUTF8=1
export COLUMNS=200
case "$id" in
  C1[2-9]|C2[0-2]|C24|C3*) # these watch the file operations of child processes
    export FSMON_SO="$scratch/fsmon.so"
    gcc -O2 -fPIC -shared -Wno-nonnull-compare -o "$FSMON_SO" "$here/interpose/fsmon.c" -ldl -lpthread || exit 4
    preload="$FSMON_SO" ;;
  *) preload="" ;;
esac
cd "$scratch/tmp" || exit 4
setsid --wait timeout -k 10 "${VERIF_TIMEOUT:-870}" env ${preload:+LD_PRELOAD="$preload"} "${CODEPREP_PYTHON:-/opt/venv-pypy/bin/pypy3}" "$here/harness/main.py" "$id" "$tier"
rc=$?
cd /
chmod -R u+rwx "$scratch" 2>/dev/null
rm -rf "$scratch"
exit $rc
