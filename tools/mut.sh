#!/bin/bash
# mut.sh FILE 'old' 'new' CHECK...: runs checks against a replacement of text (first occurrence), in a scratch copy of /repo
f=$1; old=$2; new=$3; shift 3
w=$(mktemp -d /tmp/mu_XXXXXX); git -C /repo archive HEAD | tar -x -C "$w"
cd "$w" && python3 - "$f" "$old" "$new" <<'P' || { rm -rf "$w"; exit 1; }
import sys
f,o,n=sys.argv[1:]
s=open(f).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
assert s.count(o)>=1,('not found',o)
open(f,'w').write(s.replace(o,n,1))
P
cd /verif
for c in "$@"; do VF_REPO=$w ./run $c 2>/dev/null | grep -v "^  *rejected:\|note:\|^KNOWN" | cut -c1-400 | tail -2; done
rm -rf "$w"
