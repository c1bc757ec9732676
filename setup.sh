#!/bin/bash
# Builds the file-system seam and checks that the framework imports the code.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, '.')
from sim import simio
print('seam:', simio.build())
PY
mkdir -p evidence replays
