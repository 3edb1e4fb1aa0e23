#!/bin/bash
# mut.sh "PROPS" FILE 's/python-regex/repl/'...  : apply a one-off change to /repo, run checks, undo.
props=$1; shift; file=$1; shift
python3 - "$file" "$@" <<'P' || exit 9
import sys
p='/repo/'+sys.argv[1]; t=open(p).read(); o=t
a=sys.argv[2:]
for x,y in zip(a[::2],a[1::2]):
    assert x in t, "not found: "+x
    t=t.replace(x,y,1)
assert t!=o
open(p,'w').write(t)
P
for q in $props; do (cd /verif && timeout 900 python3 check.py $q 2>&1 | grep -E "^(OK|CHECK|VIOLATION)" | head -1); done
git -C /repo checkout -- .
