#!/bin/bash
# Builds the engine and all harnesses from the committed files (offline).
set -e
cd /verif
. ./env.sh
bash eng.sh || true
test -x target/engine/release/symx
python3 - <<'P'
import sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/meta")
import glob, os, check
for f in sorted(glob.glob("/verif/harness*/src/bin/*.rs")):
    b = os.path.basename(f)[:-3]
    print("ir", b, flush=True)
    check.build_ir(b)
print("native", flush=True)
check.build_native("types")
P
echo setup done
