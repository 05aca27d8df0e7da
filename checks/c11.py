"""C11: camera look-up returns the requested image's own parameters after any history."""
import copy
import json
import os
import warnings
import zlib
from pathlib import Path

import numpy as np
import yaml

import world

CORRS = {1: (2.5, -1.25), 2: (-0.75, 3.0), 3: (0.125, 0.5), 4: (6.0, 7.5)}


def form(name, kind, d):
    """An image name in one of the forms that get() accepts."""
    import fsspec
    import rasterio as rio

    p = d / 'images' / name
    if kind == 'rel':
        return name
    if kind == 'str':
        return str(p)
    if kind == 'path':
        return p
    if kind == 'uri':
        return 'memory://some/dir/' + name
    if kind == 'openfile':
        return fsspec.open(str(p), 'rb')
    if not p.exists():
        p.parent.mkdir(exist_ok=True)
        world.write_image(p, np.zeros((1, 4, 5), 'uint8'))
    return rio.open(p)


def interior(k):
    i = dict(world.interior(k), focal_len=20.0 + 1.5 * k)
    i['cam_type'] = i.pop('type')
    from orthority.enums import CameraType

    i['cam_type'] = CameraType(i['cam_type'])
    i['im_size'] = tuple(i['im_size'])
    i['sensor_size'] = tuple(i['sensor_size'])
    return i


def frame_sig(cam):
    """What identifies a frame camera."""
    xyz = np.array([[world.X0 + 5.0, world.X0 - 8], [world.Y0 + 3.0, world.Y0 + 9], [100.0, 103.0]])
    v = [cam.world_to_pixel(xyz), cam.pixel_boundary(6), np.array(cam.pos), np.array(cam.im_size)]
    return f'{type(cam).__name__} {zlib.crc32(b"".join(np.ascontiguousarray(x, "float64").tobytes() for x in v)):08x} {cam.distort} {cam.alpha}'


def drive_frame(case, tmp):
    from orthority.camera import create_camera
    from orthority.factory import FrameCameras

    cam_kw = dict(distort=case['distort'], alpha=0.6)
    ints = {cid: interior(k) for k, cid in enumerate(case['ints'])}
    exts = {}
    for e in case['exts']:
        xyz, opk = world.pose(e['pose'])
        exts[e['key']] = dict(xyz=xyz, opk=opk, camera=e['cam'] or None)
    table = [
        [frame_sig(create_camera(**interior(k), **cam_kw, **dict(zip(('xyz', 'opk'), world.pose(e['pose']))))) for e in case['exts']]
        for k in range(len(ints))
    ]
    given = (ints, exts, dict(crs=world.CRS), cam_kw)
    if case['from'] == 'dict':
        cams = FrameCameras(ints, exts, io_kwargs=given[2], cam_kwargs=cam_kw)
    else:
        (tmp / 'i.yaml').write_text(yaml.safe_dump({cid: dict({n: list(v) if isinstance(v, tuple) else v for n, v in i.items() if n != 'cam_type'}, type=str(i['cam_type'].value)) for cid, i in ints.items()}))
        if case['from'] == 'csv':
            rows = ['filename,x,y,z,omega,phi,kappa,camera']
            rows += [','.join([k, *map(repr, e['xyz']), *map(repr, e['opk']), e['camera'] or '']) for k, e in exts.items()]
            ep = tmp / 'e.csv'
            ep.write_text('\n'.join(rows) + '\n')
            given = given[:2] + (dict(crs=world.CRS, radians=True),) + given[3:]
        else:
            feats = [dict(type='Feature', properties=dict(filename=k, camera=e['camera'], xyz=e['xyz'], opk=e['opk']), geometry=dict(type='Point', coordinates=[0, 0, 0])) for k, e in exts.items()]
            ep = tmp / 'e.geojson'
            ep.write_text(json.dumps(dict(type='FeatureCollection', world_crs=world.CRS, features=feats)))
        cams = FrameCameras(tmp / 'i.yaml', ep, io_kwargs=given[2], cam_kwargs=cam_kw)
    ref = copy.deepcopy(given)
    kept, steps = [], []
    for n, st in enumerate(case['steps']):
        s = dict(kind=st['kind'], error='', sig='', names={}, again={})
        if st['kind'] == 'get':
            s['name'] = st['name']
            f = form(st['name']['name'], st['form'], tmp)
            try:
                cam = cams.get(f)
                s['sig'] = frame_sig(cam)
                kept.append([cam, s['sig']])
            except Exception as ex:
                s['error'] = type(ex).__name__
        elif st['kind'] == 'tamper' and kept:
            e = kept[st['which'] % len(kept)]
            if st['how'] == 'update':
                e[0].update(xyz=(1.0, 2.0, 300.0), opk=(0.0, 0.1, 0.2))
            elif st['how'] == 'alpha':
                e[0].alpha = 0.1
            elif st['how'] == 'distort':
                e[0].distort = not e[0].distort
            elif not (tmp / 'r.tif').exists():
                world.write_image(tmp / 'r.tif', world.texture((1, 40, 60)))
                e[0].read(tmp / 'r.tif')
            e[1] = frame_sig(e[0])
        elif st['kind'] == 'export':
            d = tmp / f'x{n}'
            d.mkdir()
            try:
                cams.write_param(d)
                again = FrameCameras(d / 'int_param.yaml', d / 'ext_param.geojson', cam_kwargs=cam_kw)
                s['names'] = {k: sig_or_error(cams, k) for k in exts}
                s['again'] = {k: sig_or_error(again, k) for k in exts}
            except Exception as ex:
                s['error'] = f'{type(ex).__name__}: {ex}'
        s.update(kept=all(frame_sig(c) == g for c, g in kept), same=ref == given, filenames=sorted(cams.filenames))
        steps.append(s)
    return dict(outcome='ok', table=table, steps=steps)


def sig_or_error(cams, k):
    try:
        return frame_sig(cams.get(k))
    except Exception as ex:
        return type(ex).__name__


def group(name):
    """Images that GCPs with one key can apply to show the same scene."""
    return dict(im0=0, im1=1, a=2).get(name.split('.')[0], 3)


def rpc_of(name, n):
    """The model of the n-th image: that of its scene, with an offset of its own."""
    r = world.rpc(group(name)).to_dict()
    r['samp_off'] += 3.0 * (n + 1)
    return r


def probes(g):
    r = world.rpc(g)
    u = np.array([[-0.6, -0.5, 0.1, 0.7, 0.4], [0.5, -0.7, 0.05, 0.3, -0.45], [0.1, -0.2, 0.0, 0.3, 0.5]])
    return np.array([r.long_off + u[0] * r.long_scale, r.lat_off + u[1] * r.lat_scale, 104 + 40 * u[2]])


def pixels(cam, name, crs):
    xyz = probes(group(name))
    if crs:
        from rasterio.warp import transform

        xyz = np.array(transform(world.LLA, world.CRS, *xyz))
    return [repr(float(v)) for v in cam.world_to_pixel(xyz).T.ravel()]


def gcps_of(e, method):
    if e['corr'] in CORRS:
        return world.gcps(group(e['key']), CORRS[e['corr']])
    return world.gcps(group(e['key']), (1.0, 2.0))[: 0 if method == 'shift' else 1]


def drive_rpc(case, tmp):
    from orthority import param_io
    from orthority.camera import create_camera
    from orthority.enums import CameraType
    from orthority.factory import RpcCameras

    keys = [k['name'] for k in case['keys']]
    cam_kw = dict(crs=world.CRS) if case['crs'] else {}
    par = {k: dict(cam_type=CameraType.rpc, im_size=(60, 40), rpc=rpc_of(k, n)) for n, k in enumerate(keys)}
    base = [pixels(create_camera(**copy.deepcopy(p), **cam_kw), k, case['crs']) for k, p in par.items()]
    scene = [pixels(create_camera('rpc', im_size=(60, 40), rpc=world.rpc(group(k)), **cam_kw), k, case['crs']) for k in keys]
    if case['from'] == 'yaml':
        param_io.write_rpc_param(tmp / 'r.yaml', par)
        cams = RpcCameras(tmp / 'r.yaml', cam_kwargs=cam_kw)
    else:
        cams = RpcCameras(par, cam_kwargs=cam_kw)
    given = [par, cam_kw]
    ref = copy.deepcopy(given)
    kept, steps = [], []
    for n, st in enumerate(case['steps']):
        s = dict(kind=st['kind'], error='', pixels=[], again=[], corr=st['corr'], fails=st['fails'])
        try:
            if st['kind'] == 'get':
                s['name'] = st['name']
                f = form(st['name']['name'], st['form'], tmp)
                cam = cams.get(f)
                s['pixels'] = pixels(cam, st['name']['name'], case['crs'])
                kept.append((cam, st['name']['name'], s['pixels']))
            elif st['kind'] == 'refine':
                g = {e['key']: gcps_of(e, st['method']) for e in st['gcps']}
                given.append(g)
                ref.append(copy.deepcopy(g))
                if st['file'] and all(g.values()):
                    param_io.write_gcps(tmp / f'g{n}.geojson', g)
                    g = tmp / f'g{n}.geojson'
                cams.refine(g, fit_kwargs=dict(method=st['method']))
            else:
                d = tmp / f'x{n}'
                d.mkdir()
                cams.write_param(d)
                again = RpcCameras(d / 'rpc_param.yaml', cam_kwargs=cam_kw)
                s['again'] = [pixels(again.get(k), k, case['crs']) for k in keys]
        except Exception as ex:
            s['error'] = type(ex).__name__ if st['kind'] == 'get' else f'{type(ex).__name__}: {ex}'
        s.update(kept=all(pixels(c, m, case['crs']) == p for c, m, p in kept), same=ref == given, filenames=sorted(cams.filenames))
        steps.append(s)
    return dict(outcome='ok', base=base, scene=scene, corrs=[[repr(v) for v in CORRS[i]] for i in sorted(CORRS)], steps=steps)


def drive(case, tmp):
    warnings.simplefilter('ignore')
    os.chdir(tmp)
    return (drive_frame if case['kind'] == 'frame' else drive_rpc)(case, Path(tmp))


MODEL = 'SPECIFICATION Spec\nINVARIANT KeptIsCurrent\nPROPERTY Current\nCHECK_DEADLOCK FALSE\nCONSTANTS Names <- MCNames\nRpcKeys <- MCKeys\nGcpSets <- MCGcps\nMaxSteps = {}\n'


def main(c):
    c.model('FactoryMC', MODEL.format(4 if c.quick else 6))
    cases = c.generate('C11Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C11Trace', runs, cfg='CONSTANT Failing <- C11Failing')
    c.evaluations = sum(len(r['obs'].get('steps', [])) for r in runs)
    c.nontrivial = set(range(c.evaluations))
    c.rule = 'histories of Factory.tla: look-ups in every form, refinements (also failing ones), exports and changes of returned cameras, over random collections of images'
    c.level = 'model_checking'
