#!/bin/bash
# nothing to build: checks are Python and import /repo directly; verify the toolchain is usable
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, quaternion, scipy, xarray, pandas, anytree; import mc.explore" || exit 1
mkdir -p evidence replays
