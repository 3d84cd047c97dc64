#!/bin/sh
# Nothing to build: TLA+ modules are interpreted by TLC, the harness is Python.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -c "import mizarlabs, sys; print('ok', mizarlabs.__file__)"
