#!/bin/bash
# Nothing has to be installed: the checks build the driver and the operator overrides themselves.
# This only makes sure that everything they need is there and that all specifications parse.
set -e
cd "$(dirname "$0")/.."
python3 -c 'import sys; sys.path.insert(0, "tools"); sys.dont_write_bytecode = True; import lib, props'
go version
tmp=$(mktemp -d)
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$tmp" spec/*.java
rm -r "$tmp"
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
