"""C23: exterior parameters fitted to GCPs reproduce the pose that generated them."""
import copy
import warnings

import numpy as np

import camlib
from camlib import num


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def drive(case, tmp):
    from orthority.camera import create_camera
    from orthority.enums import CameraType
    from orthority.fit import fit_frame_exterior
    from rasterio.crs import CRS

    warnings.simplefilter('ignore')
    cam = dict(case['in'], type=case['type'], dist=case['dist'], xyz=['0', '0', '0'], opk=['0', '0', '0'])
    cam_type, interior, _ = camlib.frame_params(cam)
    ip = dict(first=dict(cam_type=CameraType(cam_type), **interior))
    if case['others']:
        ip['second'] = dict(cam_type=CameraType.pinhole, im_size=(10, 10), focal_len=1.0)
    form = dict(tuple=tuple, list=list, array=np.array)[case['form']]
    gcps = {
        im['name']: [
            dict(ji=form([num(v) for v in g['ji']]), xyz=form([num(v) for v in (g['lla'] if case['crs'] else g['xyz'])]), id=str(k), info='x')
            for k, g in enumerate(im['gcps'])
        ]
        for im in case['images']
    }  # fmt: skip
    crs = None
    if case['crs']:
        crs = f'EPSG:{case["crs"]}'
        crs = dict(string=crs, object=CRS.from_string(crs), wkt=CRS.from_string(crs).to_wkt())[case['crsform']]
    before = copy.deepcopy((ip, gcps))
    res = dict(outcome='ok', error='', images=[])
    try:
        ext = fit_frame_exterior(ip, gcps, crs=crs)
    except Exception as ex:
        res.update(error=type(ex).__name__, message=str(ex)[:200])
        ext = {}
    res['unchanged'] = same(before, (ip, gcps))
    for (name, e), im in zip(ext.items(), case['images']):
        c = create_camera(**ip['first'], xyz=e['xyz'], opk=e['opk'])
        ji = c.world_to_pixel(np.array([[num(v) for v in g['xyz']] for g in im['gcps']]).T).T
        res['images'].append(dict(name=name, xyz=[float(v) for v in e['xyz']], opk=[float(v) for v in e['opk']], camera=e['camera'], ji=ji.tolist()))
    return res


def main(c):
    cases = c.generate('C23Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C23Trace', runs, cfg='CONSTANT Failing <- C23Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['obs'].get('error') == ''}
    c.level = 'exploration'
    c.rule = 'interiors, distortions, poses and GCP layouts of C23Gen.tla, with the pixels that Camera.tla gives; the fitted pose has to explain them'
    c.assumptions += ['GCPs are not degenerate (not in a line)', 'a pose is compared when there are at least 5 GCPs, with a tolerance of 0.005 pixels']
