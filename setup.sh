#!/bin/bash
# Builds the executor and both harness crates (IR + native replay) into /verif/.build, offline.
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys; sys.path.insert(0, '.'); sys.argv = ['check.py']
import check
with check.Lock():
    check.build_engine()
    for c in check.PKG: check.build_harness(c)
print('setup done')
P
