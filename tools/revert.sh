#!/bin/bash
# usage: revert.sh COMMIT PROP -- run a check against a scratch copy with one fix reverted
D=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo "$D/repo"
git -C "$D/repo" revert --no-edit $1 >/dev/null 2>&1 || { echo "revert $1 conflicts"; rm -rf "$D"; exit; }
cd /verif; VERIF_REPO="$D/repo" timeout 600 python3-vt engine/run.py $2 2>&1 | cut -c1-260 | tail -${3:-2}
rm -rf "$D"
