#!/bin/bash
# Nothing to install: checks that the tools the checks need are there.
set -e
for t in gcc g++ java python3; do command -v $t > /dev/null || { echo "missing: $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/../build" "$(dirname "$0")/../evidence"
echo ok
