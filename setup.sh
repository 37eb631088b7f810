#!/bin/bash
# setup.sh -- builds the interposition library used by the fault and file-operation monitors (everything else is interpreted)
set -eu
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence"
if [ -f "$here/interpose/fsmon.c" ]; then
  mkdir -p "$here/build"
  gcc -O2 -fPIC -shared -Wall -Wno-nonnull-compare -o "$here/build/fsmon.so.tmp.$$" "$here/interpose/fsmon.c" -ldl -lpthread
  mv "$here/build/fsmon.so.tmp.$$" "$here/build/fsmon.so"
fi
echo setup done
