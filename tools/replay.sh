#!/bin/bash
# Drives the calls of a counterexample (build/replay/<id>-<shard>-<segment>.script) through the library in $REPO
# (default /repo) once more and says what of the outcome TLC rejects.
# usage: tools/replay.sh FILE.script [aspects,...] [scope]
cd "$(dirname "$0")/.." && exec python3 tools/replay.py "$@"
