"""C09: projections of the camera classes follow the specification Camera.tla, both ways."""
import warnings

import numpy as np
from rasterio import Affine

import camlib
from vf import num


def drive(case, tmp):
    warnings.simplefilter('ignore')
    from rasterio.warp import transform

    calls = []
    rpc = case['kind'] == 'rpc'
    if rpc:
        opt = dict(rpc_options=dict(rpc_pixel_error_threshold='1e-4')) if case['tight'] else {}
        cam = camlib.make_rpc(case['rpc'], case['size'], case['crs'], **opt)
        crs = None if case['crs'] == 'none' else case['crs']
        w, h = case['size']
        r = camlib.rpc_params(case['rpc'])
        z0 = r['height_off']
        dz = [0.0, 200.0, -350.0, 120.5]

        def geo(xyz):
            xyz = np.asarray(xyz, dtype='float64')
            if crs is None:
                return xyz.T
            return np.array(transform(crs, 'EPSG:4979', *xyz)).T

        lonlat = [
            (r['long_off'] + a * r['long_scale'], r['lat_off'] + b * r['lat_scale'], z0 + c)
            for a, b, c in [(0, 0, 0), (0.5, -0.7, 100), (-0.9, 0.3, -200), (0.2, 0.95, 400), (-0.35, -0.85, 55)]
        ]
        pts = np.array(lonlat).T
        if crs is not None:
            pts = np.array(transform('EPSG:4979', crs, *pts))
    else:
        c = case['cam']
        if case['ctor'] == 'pose':
            cam = camlib.make_frame(c)
        else:
            cam = camlib.make_frame(c, pose=False)
            _, _, ext = camlib.frame_params(c)
            cam.update(**ext)
        w, h = c['size']
        X, Y, Z = (num(v) for v in c['xyz'])
        z0 = Z - 100.0
        dz = [0.0, 30.0, -45.5, 12.25]

        def geo(xyz):
            return np.asarray(xyz).T

        pts = np.array([
            (X + a, Y + b, Z - d)
            for a, b, d in [(0, 0, 100), (25, -14, 90), (-31, 18, 120), (7.5, 33, 80), (-20, -27, 101), (11, 3, 60)]
        ]).T  # fmt: skip

    def w2p(what, xyz):
        arg = xyz.copy()
        arg.setflags(write=True)
        e = dict(call='w2p', what=what, **{'in': xyz.T.copy()})
        try:
            out = cam.world_to_pixel(arg)
            e.update(outcome='ok', out=np.asarray(out).T, unmodified=bool(np.array_equal(arg, xyz, equal_nan=True)))
            e['geo'] = np.where(np.isnan(xyz.T).any(axis=1, keepdims=True), np.nan, 0)
            if rpc:
                good = ~np.isnan(xyz).any(axis=0)
                g = np.full(xyz.T.shape, np.nan)
                g[good] = geo(xyz[:, good])
                e['geo'] = g
            if not rpc:
                e.pop('geo')
        except Exception as ex:
            e.update(outcome='error', error=f'{type(ex).__name__}: {ex}', geo=[])
        calls.append(e)

    def p2w(what, ji, z):
        arg, zarg = ji.copy(), (z.copy() if isinstance(z, np.ndarray) else z)
        e = dict(call='p2w', what=what, **{'in': ji.T.copy()}, z=np.atleast_1d(z).copy())
        try:
            out = np.asarray(cam.pixel_to_world_z(arg, zarg))
            good = ~np.isnan(out).any(axis=0)
            g = np.full(out.T.shape, np.nan)
            if good.any():
                g[good] = geo(out[:, good])
            same = np.array_equal(arg, ji, equal_nan=True) and np.array_equal(zarg, z, equal_nan=True)
            e.update(outcome='ok', out=out.T, geo=g, unmodified=bool(same))
        except Exception as ex:
            e.update(outcome='error', error=f'{type(ex).__name__}: {ex}')
        calls.append(e)

    def reject(what, f):
        e = dict(call='reject', what=what, **{'in': []}, geo=[])
        try:
            with np.errstate(all='ignore'):
                f()
            e.update(outcome='ok')
        except Exception as ex:
            e.update(outcome='error', error=f'{type(ex).__name__}: {ex}')
        calls.append(e)

    # world to pixel
    w2p('points', pts)
    w2p('one-point', pts[:, 1:2])
    w2p('two-points', pts[:, 2:4])
    w2p('three-points', pts[:, 1:4])
    w2p('fortran-order', np.asfortranarray(pts))
    bad = pts.copy()
    bad[2, 1] = np.nan
    w2p('nan-height', bad)
    bad = pts.copy()
    bad[0, 0] = np.nan
    bad[:, 3] = np.nan
    w2p('nan-points', bad)
    for k, n in ((0, 'x'), (1, 'y')):
        bad = pts.copy()
        bad[k, 2] = np.nan
        w2p(f'nan-{n}', bad)
    w2p('nan-only', np.full((3, 1), np.nan))
    w2p('nans-only', np.full((3, 4), np.nan))
    # pixel to world
    ji = np.array([[0, 0], [w - 1, 0], [w - 1, h - 1], [0, h - 1], [(w - 1) / 2, (h - 1) / 2], [w * 0.3, h * 0.7]]).T
    p2w('scalar-height', ji, float(z0))
    p2w('other-height', ji, float(z0 + dz[1]))
    p2w('int-height', ji, int(z0))
    p2w('numpy-height', ji, np.float64(z0 + 1.5))
    p2w('float32-height', ji, np.float32(z0 + 2.5))
    p2w('one-element-array', ji, np.array([z0 + dz[2]]))
    p2w('array-heights', ji, z0 + np.array([0, 10, -20, 30, 5, 15.5]))
    p2w('int-array-heights', ji, np.array([z0] * 3 + [z0 + 7] * 3).astype('int'))
    p2w('two-pixels', ji[:, 3:5], z0 + np.array([3.0, 9.0]))
    p2w('three-pixels', ji[:, 2:5], z0 + np.array([3.0, 9.0, -4.0]))
    p2w('one-pixel', ji[:, 5:6], z0 + 4.0)
    p2w('one-pixel-many-heights', ji[:, 1:2], z0 + np.array(dz))
    p2w('one-pixel-one-height-array', ji[:, 2:3], np.array([z0 + 8.0]))
    p2w('int-pixels', np.array([[1, 2], [w - 2, 3], [4, h - 3]]).T, z0 + 2.0)
    p2w('float32-pixels', np.array([[1, 2], [w - 2, 3.5], [4, h - 3]], dtype='float32').T, z0 + 2.0)
    nji = ji.copy()
    nji[0, 2] = np.nan
    p2w('nan-pixel', nji, float(z0))
    nz = z0 + np.array([0, 10, np.nan, 30, 5, np.nan])
    p2w('nan-heights', ji, nz)
    nji[:, 4] = np.nan
    p2w('nan-pixels-and-heights', nji, nz)
    nji = ji.copy()
    nji[1, 3] = np.nan
    p2w('nan-row', nji, np.array([z0 + 1.0]))
    p2w('nan-pixels-only', np.full((2, 3), np.nan), float(z0))
    p2w('nan-height-only', ji, float('nan'))
    # boundaries
    def boundary(what, n, z, **kw):
        b = cam.pixel_boundary(num_pts=n)
        e = dict(call='edge', what=what, **{'in': []}, out=b.T, size=[w, h], distort=rpc or cam.distort, outcome='ok')
        calls.append(e)
        e = dict(call='p2w', what=what, **{'in': b.T.copy()}, z=[z])
        try:
            out = np.asarray(cam.world_boundary(z, num_pts=n, **kw))
            e.update(outcome='ok', out=out.T, geo=geo(out), unmodified=True)
        except Exception as ex:
            e.update(outcome='error', error=f'{type(ex).__name__}: {ex}')
        if not rpc and e['outcome'] == 'ok' and z > Z and kw.get('clip', True):
            e.update(call='clipped', pos=[X, Y, Z])
        calls.append(e)

    boundary('boundary', None, float(z0))
    boundary('boundary-points', 30, float(z0 + dz[1]))
    if not rpc:
        boundary('boundary-above', None, Z + 25.0)
        boundary('boundary-above-unclipped', 12, Z + 25.0, clip=False)
    # unusable input
    reject('world-2-rows', lambda: cam.world_to_pixel(pts[:2]))
    reject('world-1d', lambda: cam.world_to_pixel(pts[:, 0]))
    reject('world-3d', lambda: cam.world_to_pixel(pts[:, :, None]))
    reject('world-float32', lambda: cam.world_to_pixel(pts.astype('float32')))
    reject('world-int', lambda: cam.world_to_pixel(pts.astype('int')))
    reject('pixel-3-rows', lambda: cam.pixel_to_world_z(pts, float(z0)))
    reject('pixel-1d', lambda: cam.pixel_to_world_z(ji[:, 0], float(z0)))
    reject('height-2d', lambda: cam.pixel_to_world_z(ji, np.full((1, ji.shape[1]), z0)))
    reject('height-length', lambda: cam.pixel_to_world_z(ji, np.full(ji.shape[1] - 1, z0)))
    reject('height-too-many', lambda: cam.pixel_to_world_z(ji, np.full(ji.shape[1] + 3, z0)))
    if rpc:
        for k, crs in (('heights-us-ft', '+proj=utm +zone=35 +south +datum=WGS84 +vunits=us-ft +type=crs'), ('heights-ft', '+proj=longlat +datum=WGS84 +vunits=ft +type=crs')):
            reject(k, lambda: camlib.make_rpc(case['rpc'], case['size'], crs))
    else:
        c = case['cam']
        uninit = camlib.make_frame(c, pose=False)
        _, _, ext = camlib.frame_params(c)
        reject('no-pose-forward', lambda: uninit.world_to_pixel(pts))
        reject('no-pose-inverse', lambda: uninit.pixel_to_world_z(ji, float(z0)))
        reject('no-pose-boundary', lambda: uninit.world_boundary(float(z0)))
        xyz_only = camlib.make_frame(c, pose=False, xyz=ext['xyz'])
        reject('no-rotation', lambda: xyz_only.world_to_pixel(pts))
        opk_only = camlib.make_frame(c, pose=False, opk=ext['opk'])
        reject('no-position', lambda: opk_only.world_to_pixel(pts))
        reject('xyz-length', lambda: camlib.make_frame(c, xyz=ext['xyz'][:2]))
        reject('opk-length', lambda: camlib.make_frame(c, opk=ext['opk'] + (0.0,)))
        reject('update-length', lambda: camlib.make_frame(c).update(ext['xyz'], ext['opk'][:2]))
        reject('focal-length', lambda: camlib.make_frame(c, focal_len=(1.0, 1.0, 1.0)))
        reject('sensor-size', lambda: camlib.make_frame(c, sensor_size=(1.0, 1.0, 1.0)))
        if c['type'] == 'pinhole':  # the top of the image is just above the horizon
            (w, h), f = c['size'], num(c['focal'][1])
            fy = f * h / num(c['sensor'][1]) if c['sensor'] else f * max(w, h)
            cy = (h - 1) / 2 + max(w, h) * num(c['c'][1])
            for k, a in (('horizon', 0.3), ('horizon-far', 20.0)):
                cam_h = camlib.make_frame(c, opk=(float(np.arctan2(fy, cy) + np.radians(a)), 0.0, 0.0))
                reject(k, lambda: cam_h.world_boundary(float(z0)))
                reject(k + '-surface', lambda: cam_h.world_boundary(np.full((8, 8), float(z0)), transform=Affine(10, 0, ext['xyz'][0] - 40, 0, -10, ext['xyz'][1] + 40)))
        reject('image-size', lambda: camlib.make_frame(c, im_size=(10,)))
    return dict(outcome='ok', calls=calls)


def main(c):
    cases = c.generate('C09Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C09Trace', runs, cfg='CONSTANT Failing <- C09Failing')
    n = sum(len(r['obs'].get('calls', [])) for r in runs)
    c.evaluations = n
    c.nontrivial = set(range(n))
    c.extra['calls'] = n
    c.rule = 'camera x pose x setting x call pattern; every call is judged against Camera.tla; each counted once'
    c.level = 'exploration'
    c.assumptions = ['Real64 (IEEE double) arithmetic in TLC', 'PROJ transforms for projected RPC coordinates']
