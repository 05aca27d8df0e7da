"""mkseed.py ID: makes seeded/ID/patch.diff from edits (stdin: python list of (file, old, new)), and demo.sh."""
import ast, subprocess, sys, tempfile
from pathlib import Path
sid = sys.argv[1]
d = Path('/verif/seeded') / sid
d.mkdir(parents=True, exist_ok=True)
with tempfile.TemporaryDirectory() as w:
    subprocess.run(f'git -C ${{VF_BASE:-/repo}} archive HEAD | tar -x -C {w}; cd {w}; git init -q .; git add -A; git -c user.name=x -c user.email=x commit -qm x', shell=True, check=True, executable="/bin/bash")
    for f, o, n in ast.literal_eval(sys.stdin.read()):
        p = Path(w) / f
        s = p.read_text()
        assert s.count(o) == 1, (f, o, s.count(o))
        p.write_text(s.replace(o, n))
    (d / 'patch.diff').write_text(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
if not (d / 'demo.sh').exists():
    (d / 'demo.sh').write_text('''#!/bin/bash
# run with cwd = repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PROJ_DATA=/opt/vp/proj-data PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD PROJ_NETWORK=OFF DEMO_TMP=$tmp
timeout 250 /opt/venv/bin/python "$here/demo.py"
''')
