"""Cameras, images and DEMs for the drivers, made from the cases of the specifications."""
import warnings

import numpy as np
import rasterio as rio

from vf import num


def frame_params(cam):
    """(cam_type, interior kwargs, exterior kwargs) of a case's frame camera record."""
    f = [num(v) for v in cam['focal']]
    int_param = dict(
        im_size=tuple(cam['size']),
        focal_len=f[0] if cam.get('scalar') else tuple(f),
        cx=num(cam['c'][0]),
        cy=num(cam['c'][1]),
        **{k: num(v) for k, v in cam['dist'].items() if k != 'k0'},
    )
    if cam['sensor']:
        int_param['sensor_size'] = tuple(num(v) for v in cam['sensor'])
    ext = dict(xyz=tuple(num(v) for v in cam['xyz']), opk=tuple(np.radians([num(v) for v in cam['opk']]).tolist()))
    return cam['type'], int_param, ext


def make_frame(cam, pose=True, **kwargs):
    from orthority.camera import create_camera

    cam_type, int_param, ext = frame_params(cam)
    kw = dict(int_param, distort=cam['distort'], alpha=num(cam['alpha']))
    if pose:
        kw.update(ext)
    kw.update(kwargs)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return create_camera(cam_type, **kw)


def rpc_params(rpc):
    out = {}
    for k, v in rpc.items():
        out[k] = [num(x) for x in v] if isinstance(v, list) else num(v)
    return out


def make_rpc(rpc, size, crs=None, **kwargs):
    from orthority.camera import create_camera

    return create_camera('rpc', im_size=tuple(size), rpc=rpc_params(rpc), crs=None if crs in (None, 'none') else crs, **kwargs)
