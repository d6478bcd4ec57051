#!/bin/sh
# Nothing is built: the checks are Python run by the interpreter of the repository's own tests.
cd "$(dirname "$0")/.." && mkdir -p evidence replays && chmod +x check && exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); import harness.engine, harness.props.registry; print("ok")'
