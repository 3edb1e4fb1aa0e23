#!/bin/bash
# Nothing to install: checks build their drivers from /repo's working tree.  This only
# confirms the toolchain and warms Go's build cache.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
python3 - <<'P'
import os, vlib, shutil
c = vlib.Ctx("setup", "quick", 1)
for d in sorted(os.listdir("drivers")):
    if d != "vlib":
        c.build(d, tags="test,verif" if d in ("dist", "swim", "keys", "chaos", "peerauth", "life") else "")
shutil.rmtree(c.dir, ignore_errors=True)
P
echo setup ok
