#!/bin/bash
# usage: mut.sh PROP FILE PYTHON_OLD PYTHON_NEW  -- run a check against a scratch copy with one replacement
set -e
D=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo "$D/repo"
python3 - "$D/repo/nion/utils/$2" "$3" "$4" <<'P'
import sys
f,a,b=sys.argv[1:4]; a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
s=open(f).read(); assert a in s,"text not found"; open(f,'w').write(s.replace(a,b,1))
P
cd /verif; VERIF_REPO="$D/repo" timeout 600 python3-vt engine/run.py $1 2>&1 | grep -v "^   [a-z_]* {.*paths" | cut -c1-300 | tail -${5:-4} || true
rm -rf "$D"
