#!/bin/bash
# Nothing to install: check that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")/.."
command -v gcc java python3-vt >/dev/null
python3-vt -c 'import numpy'
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for m in *.tla; do java -cp $J tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }; done
rm -f /tmp/sany.$$
