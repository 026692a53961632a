#!/bin/bash
# Nothing has to be built: the checks run the Python sources in /repo directly,
# with Hypothesis taken from the pre-installed tooling venv (or its wheel).
# This only confirms that the pieces are there.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
cd "$HERE" || exit 2
exec /opt/venv/bin/python -m vf.main --selftest
