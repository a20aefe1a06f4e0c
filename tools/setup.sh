#!/bin/bash
# Nothing is compiled: the checks need the interpreter of the repository, Java
# and TLC. Every specification must parse.
set -eu
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c 'import numpy, scipy, numba, psutil'
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp spec/*.tla "$W"; cd "$W"
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; exit 1; }
done
echo "setup ok"
