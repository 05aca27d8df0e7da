"""C12: exported parameters read back to the same cameras."""
import copy
import io
import json
import warnings

import numpy as np

import world
from vf import num

CRSS = dict(
    lo25='+proj=tmerc +lat_0=0 +lon_0=25 +k=1 +x_0=0 +y_0=0 +axis=wsu +ellps=WGS84 +units=m +no_defs',
    custom='+proj=tmerc +lat_0=-12.3456789012345 +lon_0=25.1234567890123 +k=0.9996 +x_0=1234.5678901 +y_0=10000000 +datum=WGS84 +units=m +no_defs',
    towgs84='+proj=tmerc +lat_0=0 +lon_0=27 +k=0.9996 +x_0=500000 +y_0=10000000 +ellps=GRS80 +towgs84=1,2,3,4,5,6,7 +units=m +no_defs',
)


def txt(s):
    return None if s == 'none' else s.replace('{u}', 'fen\u00eatre \u6a21').replace('{long}', 'a long name ' * 15)


def back(s):
    return 'none' if s is None else s.replace('fen\u00eatre \u6a21', '{u}').replace('a long name ' * 15, '{long}')


def number(t):
    """A number as the caller has it: whole numbers are int."""
    return float(t) if any(c in t for c in '.e') else int(t)


def value(key, v):
    v = tuple(number(x) for x in v)
    return list(v) if 'coeff' in key else v[0] if len(v) == 1 else v


def params(case):
    from orthority.enums import CameraType

    out = {}
    for e in case['entries']:
        if case['kind'] == 'gcps':
            out[txt(e['id'])] = [dict(ji=value('', g['ji']), xyz=value('', g['xyz']), id=txt(g['id']), info=txt(g['info'])) for g in e['fields']]
            continue
        f = {x['key']: value(x['key'], x['val']) for x in e['fields']}
        if case['kind'] == 'int':
            p = dict(cam_type=CameraType(e['cam_type']), **f)
        elif case['kind'] == 'ext':
            p = dict(f, camera=txt(e['camera']))
        else:
            im_size = f.pop('im_size')
            p = dict(cam_type=CameraType.rpc, im_size=im_size, rpc=dict(dict(err_bias=None, err_rand=None), **f))
        out[txt(e['id'])] = p
    return out


def flat(v):
    return [repr(float(x)) for x in (v if isinstance(v, (tuple, list)) else [v])]


def canon(kind, d):
    out = []
    for i, p in d.items():
        e = dict(id=back(i))
        if kind == 'gcps':
            e['fields'] = [dict(ji=flat(g['ji']), xyz=flat(g['xyz']), id=back(g['id']), info=back(g['info'])) for g in p]
        else:
            if 'cam_type' in p:
                e['cam_type'] = p['cam_type'].value
            if kind == 'ext':
                e['camera'] = back(p['camera'])
            f = {k: v for k, v in p.items() if k not in ('cam_type', 'camera', 'rpc')}
            f.update({k: v for k, v in p.get('rpc', {}).items() if v is not None})
            e['fields'] = [dict(key=k, val=flat(v)) for k, v in f.items()]
        out.append(e)
    return out


def write(kind, way, path, p, crs):
    """Write parameters in one of the ways; returns the text."""
    import fsspec

    from orthority import param_io

    func = dict(int=param_io.write_int_param, rpc=param_io.write_rpc_param, gcps=param_io.write_gcps)
    func = func.get(kind) or (lambda f, d, **kw: param_io.write_ext_param(f, d, crs, **kw))
    if way == 'stringio':
        buf = io.StringIO()
        func(buf, p)
        path.write_text(buf.getvalue())
    elif way == 'handle':
        with open(path, 'wt') as f:
            func(f, p)
    elif way == 'replace':
        path.write_text('something longer than the parameters: ' * 1000)
        func(path, p, overwrite=True)
    else:
        func(dict(str=str(path), uri=path.as_uri(), openfile=fsspec.open(str(path), 'wt')).get(way, path), p)
    return path.read_text()


def read(kind, way, path):
    import fsspec

    from orthority import param_io

    def ext(f):
        r = param_io.OtyReader(f)
        return r.read_ext_param(), r.crs

    func = dict(int=param_io.read_oty_int_param, rpc=param_io.read_oty_rpc_param, gcps=param_io.read_oty_gcps).get(kind, ext)
    if way == 'handle':
        with open(path, 'rt') as f:
            out = func(f)
    elif way == 'stringio':
        out = func(io.StringIO(path.read_text()))
    else:
        out = func(dict(str=str(path), openfile=fsspec.open(str(path), 'rt')).get(way, path))
    return out if kind == 'ext' else (out, None)


def project(kind, a, b):
    """Whether cameras of the two sets of parameters project identically."""
    from orthority.camera import RpcCamera, create_camera

    pts = np.array([[1.0, -2.0, -50.0], [-4.0, 3.0, -60.0], [12.5, 7.0, -45.0]]).T
    for x, y in zip(a.values(), b.values()):
        if kind == 'int':
            pose = dict(xyz=(10.0, 20.0, 30.0), opk=(0.02, -0.03, 0.7))
            ca, cb = (create_camera(**dict(p, **pose)) for p in (x, y))
            xyz = pts + np.array([[10.0, 20.0, 30.0]]).T
        elif kind == 'ext':
            ca, cb = (create_camera('pinhole', im_size=(60, 40), focal_len=1.0, xyz=p['xyz'], opk=p['opk']) for p in (x, y))
            xyz = pts + np.array([x['xyz']]).T
        else:
            ca, cb = (RpcCamera(p['im_size'], p['rpc']) for p in (x, y))
            r = x['rpc']
            xyz = np.array([[r['long_off'] + 0.1, r['lat_off'] - 0.2, r['height_off'] + 0.3]]).T
        if not np.array_equal(ca.world_to_pixel(xyz), cb.world_to_pixel(xyz), equal_nan=True):
            return False
    return True


def single(case, tmp):
    from rasterio.crs import CRS

    kind = case['kind']
    p = params(case)
    ref = copy.deepcopy(p)
    crs = None if kind != 'ext' else CRSS.get(case['crs'], case['crs'])
    if kind == 'ext' and case['seed'] % 2:
        crs = CRS.from_string(crs)
    ends = dict(int='yaml', rpc='yaml', ext='geojson', gcps='geojson')[kind]
    one, two = tmp / f'one.{ends}', tmp / f'two.{ends}'
    t1 = write(kind, case['write'], one, p, crs)
    got, c1 = read(kind, case['read'], one)
    t2 = write(kind, case['again'], two, got, c1)
    got2, c2 = read(kind, case['read'], two)
    same_crs = True
    if kind == 'ext':
        want = CRS.from_string(crs) if isinstance(crs, str) else crs
        same_crs = c1 == want and c2 == want
    return dict(
        first=canon(kind, got), second=canon(kind, got2), same_text=t1 == t2, same_crs=bool(same_crs), unchanged=p == ref and list(p) == list(ref),
        same_cameras=kind == 'gcps' or project(kind, p, got),
    )


def collection(case, tmp):
    """Export a collection, or use the command line's export option, and make a collection from the exported files."""
    from orthority import param_io
    import rasterio.crs
    from orthority.factory import FrameCameras, RpcCameras

    src, n = case['source'], 1 + case['seed'] % 3
    d = tmp / 'in'
    d.mkdir()
    rpc = src.startswith('rpc')
    args, given = [], []
    names = [f'im{k}.tif' for k in range(n)]
    images = None
    if not rpc:
        dem = world.dem(d / 'dem.tif')
        ip, csv, gj = world.frame_params(d, n, cams=1 + case['seed'] % 2)
        args = ['-ip', ip, '-ep', csv]
        if src == 'csv':
            cams = FrameCameras(ip, csv)
            want = param_io.read_oty_int_param(ip), param_io.CsvReader(csv).read_ext_param()
        elif src == 'csv-rpy':
            rows = csv.read_text().replace('omega,phi,kappa', 'roll,pitch,yaw')
            csv.write_text(rows)
            cams = FrameCameras(ip, csv)
            want = param_io.read_oty_int_param(ip), param_io.CsvReader(csv).read_ext_param()
        elif src == 'geojson':
            args = ['-ip', ip, '-ep', gj]
            cams = FrameCameras(ip, gj)
            want = param_io.read_oty_int_param(ip), param_io.OtyReader(gj).read_ext_param()
        elif src == 'osfm':
            world.odm(d / 'odm', n)
            rec = d / 'odm' / 'opensfm' / 'reconstruction.json'
            args = ['-ip', rec, '-ep', rec]
            cams = FrameCameras(rec, rec)
            r = param_io.OsfmReader(rec)
            want = r.read_int_param(), r.read_ext_param()
        elif src == 'exif':
            args = []
            images = world.exif_sources(d, n)
            names = [f.name for f in images]
            cams = FrameCameras.from_images(images)
            r = param_io.ExifReader(images)
            want = r.read_int_param(), r.read_ext_param()
        else:
            want = param_io.read_oty_int_param(ip), param_io.OtyReader(gj).read_ext_param()
            given = list(want)
            cams = FrameCameras(*want, io_kwargs=dict(crs=rasterio.crs.CRS.from_string('EPSG:32735') if case['seed'] % 2 else 'EPSG:32735'))
        images = images or world.sources(d, n)
        sub = 'exif' if src == 'exif' else 'frame'
    else:
        dem = world.dem(d / 'dem.tif')
        images = world.rpc_sources(d, n)
        names = [f.name for f in images]
        want = param_io.read_im_rpc_param(images)
        sub = 'rpc'
        if src == 'rpc-file':
            f = d / 'rpc.yaml'
            param_io.write_rpc_param(f, want)
            cams = RpcCameras(f)
            args = ['-rp', f]
        elif src == 'rpc-dict':
            given = [want]
            cams = RpcCameras(want)
        else:
            cams = RpcCameras.from_images(images)
        if src == 'rpc-refined':
            cams.refine(images[:1])
            args += ['-gr', 'tags'] if n == 1 else []
            want = None
    ref = copy.deepcopy(given)
    outs = [tmp / 'one', tmp / 'two']
    for o in outs:
        o.mkdir()
    files = ['rpc_param.yaml'] if rpc else ['int_param.yaml', 'ext_param.geojson']
    by_cli = case['write'] == 'cli' and src not in ('dict', 'rpc-dict') and not (src == 'rpc-refined' and n > 1)
    if by_cli:
        code, text, ex = world.cli([sub, *images, '-d', dem, *args, '-e', '-od', outs[0]])
        assert code == 0, f'{text} {ex!r}'
    else:
        cams.write_param(outs[0])
    if rpc:
        again = RpcCameras(outs[0] / files[0])
        got = param_io.read_oty_rpc_param(outs[0] / files[0])
        same = want is None or got == want and list(got) == list(want)
        pts = [np.array([[p['rpc']['long_off'] + u * 1e-4, p['rpc']['lat_off'] - u * 1e-4, 100.0] for u in (0, 1, 2)]).T for p in got.values()]
    else:
        again = FrameCameras(outs[0] / files[0], outs[0] / files[1])
        r = param_io.OtyReader(outs[0] / files[1])
        got = param_io.read_oty_int_param(outs[0] / files[0]), r.read_ext_param()
        same = got == want and all(list(a) == list(b) for a, b in zip(got, want))
        pts = [np.array(p['xyz']).reshape(3, 1) + np.array([[1.0, -2.0, -50.0], [-4.0, 3.0, -60.0]]).T for p in got[1].values()]
    again.write_param(outs[1])
    same_cameras = all(np.array_equal(cams.get(m).world_to_pixel(x), again.get(m).world_to_pixel(x)) for m, x in zip(names, pts))
    same_crs = rpc or (again.crs == cams.crs)
    return dict(
        same_params=bool(same), same_cameras=bool(same_cameras), same_crs=bool(same_crs), unchanged=given == ref,
        same_text=all((outs[0] / f).read_text() == (outs[1] / f).read_text() for f in files),
    )


def drive(case, tmp):
    warnings.simplefilter('ignore')
    out = dict(outcome='ok', error='', first=[], second=[])
    try:
        out.update((collection if case['kind'] == 'collection' else single)(case, tmp))
    except Exception as ex:
        out['error'] = f'{type(ex).__name__}: {ex}'[:300]
    return out


MODEL = (
    'SPECIFICATION Spec\nCONSTANTS\n Kinds = {"int", "ext", "rpc", "gcps"}\n Params <- MCParams\n Files = {"f", "g"}\n MaxSteps = 5\n'
    'INVARIANTS SameParameters SameContent\nCHECK_DEADLOCK FALSE\n'
)


def main(c):
    c.model('RoundTripMC', MODEL)
    cases = c.generate('C12Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C12Trace', runs, cfg='CONSTANT Failing <- C12Failing')
    c.evaluations = len(runs)
    c.nontrivial = set(range(len(runs)))
    c.rule = 'parameters of C12Gen.tla with unusual names, values and CRSs, written and read in each way, and exports of collections from each source; RoundTrip.tla gives the meaning'
