#!/bin/bash
# compiles TLC's implementation of spec/Real64.tla into build/ (git ignored), and parses every specification
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'lib'); import vf; vf.build()" || exit 1
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for m in spec/*.tla; do
  java -Djava.io.tmpdir="$T" -DTLA-Library="$PWD/spec" \
    -cp build:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$m" > "$T/out.txt" 2>&1 || { cat "$T/out.txt"; exit 1; }
done
echo "setup done"
