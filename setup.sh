#!/bin/bash
# Pre-builds the variants of the tree under test (checks rebuild incrementally anyway).
cd "$(dirname "$0")" || exit 1
exec /usr/local/bin/python3-vt - <<'P'
import glob, sys
sys.path.insert(0, ".")
import run
from vf.engine import load_prop
seen = set()
for f in sorted(glob.glob("props/c[0-9]*.py")):
    for t in load_prop("C" + f[7:-3]).TESTS:
        run.info_for(t)
print("built:", sorted(map(str, run._infos)))
P
