#!/bin/sh
# Runs the counterexamples of evidence/replay/<id>.json natively against /repo.
exec python3 "$(dirname "$0")/replay.py" "$@"
