#!/bin/bash
# Nothing to build beforehand: the specification is interpreted, and every check builds /repo itself.
# This makes sure that the tools are there and that the specification can be read.
set -e
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
cd "$(dirname "$0")"
python3 --version
java -version 2>&1 | head -1
cargo --version
python3 - <<'P'
import sys
sys.path.insert(0, "harness")
import shutil, tempfile, tlc, sut
scratch = tempfile.mkdtemp(prefix="pemv-setup-")
try:
    print(sut.build(scratch))
finally:
    shutil.rmtree(scratch)
r = tlc.run("MC_Scanner", constants={"Longest": 1})
print("TLC:", r.states, "states")
sys.exit(0 if r.ok else 1)
P
