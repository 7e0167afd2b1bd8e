#!/bin/bash
# Prepares the framework from the committed files: parses every specification, compiles the file-system shim.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence build
for f in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
/opt/venv/bin/python -c "import uberjob, networkx"
echo "setup ok"
