#!/bin/bash
# confirm.sh SEED_ID...: confirms planted changes in a scratch copy: patch applies, tests pass, demo separates
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/cs_$id
  rm -rf "$w"; cp -a /repo "$w"
  ( cd "$w"
    export PYTHONPATH=$w PROJ_DATA=/opt/vp/proj-data PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8
    ( cd "$w"; timeout 300 bash "$s/demo.sh" >"$w.d0" 2>&1 ); d0=$?
    git apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; exit; }
    timeout 300 bash "$s/demo.sh" >"$w.d1" 2>&1; d1=$?
    if [ -z "$NOTEST" ]; then
    /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --basetemp="$w/.pyt" -o junit_family=xunit2 --junitxml="$w/.junit.xml" tests >"$w.t" 2>&1
    python3 /opt/vp/results.py "$w/.out.json" "junit:$w/.junit.xml" >/dev/null
    python3 - "$w/.out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
f=lambda d: set(d.get('passed') or d.get('stable') or d.get('pass') or [])
miss=f(b)-f(o)
print('tests:', 'OK' if f(b) and not miss else ('BROKEN', len(f(b)), sorted(miss)[:6]))
P
    fi
    echo "$id: demo unchanged=$d0 patched=$d1 $( [ $d0 = 0 ] && [ $d1 != 0 ] && echo CONFIRMED || echo NOT-CONFIRMED)"
    tail -3 "$w.d1" )
  rm -rf "$w" "$w.t"
done
