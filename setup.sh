#!/bin/bash
# Nothing to build: the encoding is regenerated from /repo on every check.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -c "import symx.z3mod, symx.run; print('ready')"
