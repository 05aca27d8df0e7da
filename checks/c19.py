"""C19: GCP refinement fits the RPC model to its control points and changes nothing else."""
import copy
import warnings

import numpy as np
from rasterio.control import GroundControlPoint
from rasterio.rpc import RPC

import world
from vf import num


def model(k):
    r = world.rpc(0).to_dict()
    if k == 2:
        r.update(samp_off=6000.0, samp_scale=5200.5, line_off=5000.25, line_scale=4900.0, err_bias=1.5, err_rand=0.25)
    elif k == 3:
        r.update(lat_off=0.5, long_off=-71.25, height_off=-20.0, samp_off=-3.5, line_off=17.125)
    elif k == 4:
        r.update(
            line_num_coeff=[0.002, -0.02, -1.01, 0.015] + [0.0008 * (-1) ** i / (1 + i) for i in range(16)], samp_num_coeff=[-0.001, 0.99, 0.01, -0.02] + [0.0005 / (1 + i) for i in range(16)],
            line_den_coeff=[1.0, 0.001, -0.002, 0.0005] + [1e-5] * 16, samp_den_coeff=[1.0, -0.001, 0.0007, 0.0003] + [-1e-5] * 16,
        )  # fmt: skip
    return r


def ground(r, u):
    u = np.array(u, dtype='float64').T
    return np.array([r['long_off'] + u[0] * r['long_scale'], r['lat_off'] + u[1] * r['lat_scale'], r['height_off'] + u[2] * r['height_scale']])


def drive(case, tmp):
    from orthority import param_io
    from orthority.camera import RpcCamera
    from orthority.enums import CameraType, RpcRefine
    from orthority.factory import RpcCameras
    from orthority.fit import refine_rpc

    r = model(case['model'])
    cam = RpcCamera((60, 40), copy.deepcopy(r))
    rng = np.random.default_rng(case['seed'])
    xyz = ground(r, [[num(v) for v in p] for p in case['points']]) if case['points'] else np.zeros((3, 0))
    probe = ground(r, rng.uniform(-1, 1, (12, 3)))
    base = cam.world_to_pixel(xyz) if case['points'] else np.zeros((2, 0))
    e = case['error']
    k = 100 if case['model'] == 2 else 1
    ji = base * np.array([[num(v)] for v in e['scale']]) + np.array([[num(v)] for v in e['shift']]) * k
    ji = ji + num(e['noise']) * rng.uniform(-1, 1, ji.shape)
    if 'outlier' in e:
        ji[:, ji.shape[1] // 3] += (num(e['outlier']), -num(e['outlier']) / 2)
    gcps = [dict(ji=tuple(ji[:, i].tolist()), xyz=tuple(xyz[:, i].tolist()), id=f'g{i}', info='') for i in range(ji.shape[1])]
    kw = {} if case['method'] == 'default' else dict(method=RpcRefine(case['method']) if case['way'] == 'enum' else case['method'])
    given = [r, gcps]
    obj = RPC(**copy.deepcopy(r))
    ref = copy.deepcopy(given)
    out = dict(outcome='ok', error='', kept='', other_kept=True, warned=True, tol=repr(1e-6 * max(100.0, r['samp_scale'])))
    way = case['way']
    other = world.rpc(1).to_dict()
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            if way in ('dict', 'enum'):
                res = refine_rpc(r, gcps, **kw)
            elif way == 'rpc':
                res = refine_rpc(obj, gcps, **kw)
            elif way == 'twice':
                # refining again with the same GCPs changes nothing
                res = refine_rpc(refine_rpc(r, gcps, **kw), gcps, **kw)
            else:
                par = {n: dict(cam_type=CameraType.rpc, im_size=(60, 40), rpc=x) for n, x in (('im.tif', r), ('other.tif', other))}
                given.append(par)
                ref.append(copy.deepcopy(par))
                cams = RpcCameras(par)
                if way == 'collection':
                    g = {'im.tif': gcps}
                elif way == 'file':
                    g = tmp / 'g.geojson'
                    param_io.write_gcps(g, {'im.tif': gcps})
                else:
                    gs = [GroundControlPoint(row=g['ji'][1], col=g['ji'][0], x=g['xyz'][0], y=g['xyz'][1], z=g['xyz'][2], id=g['id']) for g in gcps]
                    g = [world.write_image(tmp / 'im.tif', world.texture((1, 40, 60)), gcps=gs, crs=world.LLA)]
                cams.refine(g, fit_kwargs=kw)
                out['warned'] = any('GCP' in str(w.message) and 'other' in str(w.message) for w in ws)
                cams.write_param(tmp)
                exp = param_io.read_oty_rpc_param(tmp / 'rpc_param.yaml')
                res = exp['im.tif']['rpc']
                out['other_kept'] = exp['other.tif']['rpc'] == other and bool(
                    np.array_equal(cams.get('other.tif').world_to_pixel(probe), RpcCamera((60, 40), other).world_to_pixel(probe))
                )
                # the export and the camera are the same model
                if not np.allclose(cams.get('im.tif').world_to_pixel(probe), RpcCamera((60, 40), res).world_to_pixel(probe), rtol=0, atol=1e-9):
                    out['kept'] = 'export differs'
        keep = [n for n in r if 'num_coeff' not in n and res.get(n) != r[n]]
        out['kept'] = out['kept'] or ','.join(keep)
        ref_cam = RpcCamera((60, 40), res)

        def txt(a):
            return [[repr(float(v)) for v in row] for row in a]

        out.update(
            gcp=txt(ji), base_gcp=txt(base), base_probe=txt(cam.world_to_pixel(probe)), refined_gcp=txt(ref_cam.world_to_pixel(xyz)), refined_probe=txt(ref_cam.world_to_pixel(probe))
        )
    except Exception as ex:
        out['error'] = f'{type(ex).__name__}: {ex}'
    out['same'] = given == ref and obj.to_dict() == RPC(**model(case['model'])).to_dict()
    return out


MODEL = 'SPECIFICATION Spec\nINVARIANTS LeastSquares ZeroWhenExact MeanResidualZero\nCHECK_DEADLOCK FALSE\n'


def main(c):
    c.model('Refine', MODEL)
    cases = c.generate('C19Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C19Trace', runs, cfg='CONSTANT Failing <- C19Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if not r['case']['few']}
    c.level = 'exploration'
    c.rule = 'models, GCP layouts and errors of C19Gen.tla, refined with each method through each interface; Refine.tla gives the correction'
