#!/bin/bash
# nothing to build: checks that the tools the checks need are there
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3-vt - <<'P'
import sys
sys.path.insert(0, '.')
import z3
from rtlvc import driver
print('z3', z3.get_version_string())
P
