"""Regenerates MANIFEST.json: one check for each property with a driver in checks/."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TECH = 'TLA+ specification: TLC-generated cases replayed into the code, recorded traces validated by TLC'
NOTES = {
    'C09': ('exploration', 'Camera.tla is the oracle for every recorded call; bounded catalogue of cameras, poses and call patterns.'),
}
from mknotes import NOTES as N2  # noqa: E402

NOTES.update(N2)
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    i = p['id']
    if (V / 'checks' / f'{i.lower()}.py').exists() and i in NOTES:
        level, note = NOTES[i][:2]
        checks.append(
            dict(
                property=i,
                quick_cmd=f'VERIF_TIER=quick ./run {i}',
                thorough_cmd=f'VERIF_TIER=thorough ./run {i}',
                evidence_file=f'evidence/{i}.json',
                technique=NOTES[i][2] if len(NOTES[i]) > 2 else TECH,
                level=level,
                level_note=note,
            )
        )
    else:
        na.append(dict(property=i, reason='Check not built yet.'))
m = dict(
    version=1,
    setup_cmd='./setup.sh',
    checks=checks,
    not_applicable=na,
    notes='No hooks are needed in /repo: the drivers use the public API and command line, and observe inside a run '
    'through the third-party interfaces the code calls (rasterio, OpenCV, concurrent.futures, fsspec).',
)
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not claimed')
