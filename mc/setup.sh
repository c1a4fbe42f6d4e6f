#!/bin/bash
# nothing to compile: the checks import the package from /repo's working tree; make sure that works here
cd "$(dirname "$0")/.." || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "import sys; sys.path.insert(0, 'mc'); import boot, engine, oracle, optim, downside, allocation, pypfopt; print('ready:', pypfopt.__file__)"
