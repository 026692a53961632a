#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [--replay FILE] [--only NAME[,NAME]]
# Runs one property check against /repo's current working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
cd "$HERE" || exit 2
exec /opt/venv/bin/python -m vf.main "$@"
