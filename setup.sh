#!/bin/bash
# Nothing has to be built ahead of time: every check compiles its drivers from /repo's current tree
# and copies the specifications into a scratch directory.  Setup only verifies the toolchain.
set -e
java -version 2>/dev/null
g++ --version | head -1
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
python3 -c 'import json, concurrent.futures'
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
cp /verif/spec/*.tla "$d"/
cd "$d"
for f in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >sany.log 2>&1 || { cat sany.log; exit 1; }
done
echo "setup: toolchain present, specifications parse"
