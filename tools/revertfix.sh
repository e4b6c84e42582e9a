#!/bin/bash
# tools/revertfix.sh COMMIT ID: undoes one fix in a scratch copy and runs a check on it.
D=$(mktemp -d /tmp/rv_XXXXXX)
git clone -q /repo "$D/r" && cd "$D/r" && git -c user.email=a@b -c user.name=a revert --no-edit "$1" >/dev/null 2>&1 || { echo "$1 $2: revert conflicts"; git -C "$D/r" status --short | head -3; rm -rf "$D"; exit 2; }
cd /verif && NSASM_REPO="$D/r" timeout 900 python3 run.py "$2" quick >"$D/log" 2>&1; rc=$?
echo "$1 $2 rc=$rc $(grep -A2 -m1 VIOLATION "$D/log" | tail -1 | cut -c1-200)"
rm -rf "$D"
