#!/bin/bash
# check.sh <property id>: the command behind every check in MANIFEST.json
cd "$(dirname "$0")/.." || exit 2
exec /opt/venv/bin/python -B mc/run.py "$@"
