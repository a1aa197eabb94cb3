#!/bin/bash
# Nothing to build ahead: every check compiles what it needs from /repo's working tree.
# Confirms that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
clang++-18 --version >/dev/null
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for m in *.tla; do
    java -cp $CP tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "setup: all specifications parse"
