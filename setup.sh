#!/bin/bash
# Builds everything the checks use from /repo's working tree (offline).
set -e
cd "$(dirname "$0")"
exec python3-vt -c '
import sys; sys.path.insert(0, "."); sys.dont_write_bytecode = True
from vf.core import *
names = [n for n in TARGETS if all(os.path.exists(VERIF + "/" + s) for s in TARGETS[n][2].values())]
build(*names, timeout=1500)
'
