#!/bin/bash
# try.sh PATCH CHECK...: run checks on a scratch copy with a patch applied
d=$(mktemp -d /tmp/try.XXXX); cp -a /repo/src $d/src
(cd $d && git init -q . >/dev/null 2>&1; git apply "$1") || { echo "patch fails"; }
shift
for c in "$@"; do ELL_REPO=$d ELL_EVIDENCE=$d/ev timeout 900 python3-vt "$(dirname "$0")/../check.py" $c; echo "rc=$?"; done
rm -rf "$d"
