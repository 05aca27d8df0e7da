#!/bin/bash
# trybug.sh SEED_ID CHECK...: runs checks against a planted change, in a scratch copy of /repo
id=$1; shift
w=$(mktemp -d /tmp/tb_XXXXXX); git -C /repo archive HEAD | tar -x -C "$w"
( cd "$w" && git init -q . && git apply /verif/seeded/$id/patch.diff ) || { echo "DOES NOT APPLY"; exit 1; }
cd /verif
for c in "$@"; do echo "== $id vs $c"; VF_REPO=$w ./run $c 2>&1 | grep -v "^  *rejected:\|note:\|^KNOWN" | cut -c1-400 | tail -3; done
rm -rf "$w"
