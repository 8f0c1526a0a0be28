#!/bin/bash
# Nothing is built: check that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")/.."
test -x /opt/venv/bin/python
T=$(mktemp -d)
for m in spec/*.tla; do
  java -Djava.io.tmpdir="$T" -DTLA-Library="$PWD/spec" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$T/out" 2>&1 || { cat "$T/out"; rm -rf "$T"; exit 1; }
done
rm -rf "$T"
mkdir -p evidence/replay
echo "setup ok"
