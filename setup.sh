#!/bin/bash
# Builds the harnesses once (the checks rebuild whatever is missing or stale themselves).
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, '.')
sys.dont_write_bytecode = True
from monitor import core
import os
for crate in sorted(os.listdir('harness')):
    if crate != 'common':
        core.build(crate)
core.build('hashes', 'asan')
core.build('sharing', 'tsan')
P
