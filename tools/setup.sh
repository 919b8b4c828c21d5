#!/bin/bash
# Nothing is built ahead: checks import /repo's working tree.  Parses the specifications so that a broken tool chain shows early.
set -e
cd "$(dirname "$0")/../spec"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in *.tla; do
  java -cp "$CP" tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
/opt/venv/bin/python -c "import jsonschema, sys; print('python', sys.version.split()[0], 'jsonschema', jsonschema.__version__)"
