#!/bin/sh
# builds the MIR dumper, the dependency metadata and the replay binary
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 - <<'P'
import sys, os
sys.path.insert(0, ".")
from mirv import build
p = os.path.join(build.BUILD, "setup-dump.json")
build.dump(p)
os.unlink(p)
os.unlink(build.replay_bin())
print("setup done")
P
