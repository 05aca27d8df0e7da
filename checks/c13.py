"""C13: interior and RPC parameter files are read completely or rejected."""
import json
import warnings

import numpy as np

import world

LISTS = ('im_size', 'sensor_size')


def text(v, key=''):
    """A value as YAML or JSON: numbers as they are written."""
    words = [x if x not in ('abc', 'n/a') else f'"{x}"' for x in v]
    return words[0] if len(words) == 1 and (key not in LISTS or words[0].startswith('"')) else '[' + ', '.join(words) + ']'


def document(case):
    layout, cams = case['layout'], case['cams']
    if layout in ('osfm', 'reconstruction'):
        cam = ', '.join(
            json.dumps(c['id']) + ': {' + ', '.join([f'"projection_type": "{c["type"]}"'] + [f'"{f["key"]}": {text(f["val"])}' for f in c['fields']]) + '}' for c in cams
        )
        if layout == 'osfm':
            return 'json', '{' + cam + '}'
        ids = ', '.join(f'"im{k}.tif": {{"rotation": [3.1, 0.01, 0.02], "translation": [1.5, 2.5, 3.5], "camera": {json.dumps(c["id"])}}}' for k, c in enumerate(cams))
        ref = '{"latitude": -34.31, "longitude": 24.83, "altitude": 50.0}'
        return 'json', f'[{{"cameras": {{{cam}}}, "shots": {{{ids}}}, "reference_lla": {ref}}}]'
    lines = []
    if layout == 'rpc':
        for c in cams:
            lines.append(f'{json.dumps(c["id"])}:')
            top = ('im_size', 'sensor_size')
            lines += [f'    {f["key"]}: {text(f["val"], f["key"])}' for f in c['fields'] if f['key'] in top]
            lines.append('    rpc:')
            lines += [f'        {f["key"]}: {text(f["val"])}' for f in c['fields'] if f['key'] not in top]
        return 'yaml', '\n'.join(lines) + '\n'
    pad = ''
    if layout.startswith('legacy'):
        lines += ([] if layout != 'legacy' and len(case['name']) % 2 else ['ortho:', '    driver: GTiff', '    dtype: uint8', '    tile_size: [512, 512]']) + ['camera:']
        pad = '    '
    for c in cams:
        fields = [f'type: {c["type"]}'] + [f'{f["key"]}: {text(f["val"], f["key"])}' for f in c['fields']]
        if layout == 'legacy-named':
            fields.insert(0, f'name: {c["id"]}')
        if layout in ('oty', 'legacy-multi'):
            lines.append(f'{pad}{json.dumps(c["id"])}:')
            fields = ['    ' + f for f in fields]
        lines += [pad + f for f in fields]
    return 'yaml', '\n'.join(lines) + '\n'


def flat(v):
    return [repr(float(x)) for x in (v if isinstance(v, (tuple, list)) else [v])]


def kwargs(case, cam):
    """The documented arguments of the camera of a document, for a reference camera."""
    f = {x['key']: [float(v) for v in x['val']] for x in cam['fields']}
    if case['layout'] in ('osfm', 'reconstruction'):
        out = dict(im_size=(f.pop('width')[0], f.pop('height')[0]), focal_len=tuple(f.pop('focal') * 2) if 'focal' in f else (f.pop('focal_x')[0], f.pop('focal_y')[0]))
        f = {dict(c_x='cx', c_y='cy').get(k, k): v for k, v in f.items()}
        t = 'fisheye' if cam['type'] == 'fisheye' else 'brown'
    else:
        out = dict(im_size=tuple(f.pop('im_size')))
        if 'focal_len' in f:
            out['focal_len'] = tuple(f.pop('focal_len'))
        if 'sensor_size' in f:
            out['sensor_size'] = tuple(f.pop('sensor_size'))
        t = cam['type']
    if len(out.get('focal_len', [])) == 1:
        out['focal_len'] = out['focal_len'][0]
    return t, dict(out, **{k: v[0] for k, v in f.items()})


def error(ex):
    from orthority.errors import ParamError

    return 'ParamError' if isinstance(ex, ParamError) else type(ex).__name__


def drive(case, tmp):
    from orthority import param_io
    from orthority.camera import create_camera
    from orthority.factory import FrameCameras, RpcCameras

    warnings.simplefilter('ignore')
    ext, doc = document(case)
    path = tmp / f'p.{ext}'
    path.write_text(doc)
    layout = case['layout']
    out = dict(outcome='ok', error='', cams=[], projects='', others=[])
    read = dict(osfm=param_io.read_osfm_int_param, reconstruction=param_io.read_osfm_int_param, rpc=param_io.read_oty_rpc_param).get(layout, param_io.read_oty_int_param)
    res = {}
    try:
        res = read(path)
        for i, p in res.items():
            params = {k: v for k, v in p.items() if k not in ('cam_type', 'rpc')}
            params.update({k: v for k, v in p.get('rpc', {}).items() if v is not None})
            out['cams'].append(dict(id=i, type=p['cam_type'].value, params=[dict(key=k, val=flat(v)) for k, v in params.items()]))
    except Exception as ex:
        out['error'] = error(ex)
        out['message'] = f'{type(ex).__name__}: {ex}'[:200]
    # the other ways to read the file
    exts = {f'im{k}.tif': dict(xyz=(1.0, 2.0, 100.0), opk=(0.01, 0.02, 0.03), camera=c['as']) for k, c in enumerate(case['cams'])}
    ways = [lambda: FrameCameras(path, exts)]
    if layout == 'reconstruction':
        ways = [lambda: param_io.OsfmReader(path, crs=world.CRS).read_int_param(), lambda: FrameCameras(path, path)]
    elif layout == 'rpc':
        ways = [lambda: RpcCameras(path)]
    got = []
    for w in ways:
        try:
            got.append(w())
            out['others'].append('')
        except Exception as ex:
            out['others'].append(error(ex))
    if case['ok'] and not out['error'] and out['others'][-1] == '':
        xyz = np.array([[1.5, 2.5, 3.0], [-4.0, 8.0, 10.0], [6.0, -7.0, 0.5]]).T
        for k, c in enumerate(case['cams']):
            try:
                if layout == 'rpc':
                    from rasterio.rpc import RPC

                    from orthority.camera import RpcCamera

                    f = {x['key']: [float(v) for v in x['val']] for x in c['fields']}
                    rpc = {n: v if 'coeff' in n else v[0] for n, v in f.items() if n != 'im_size'}
                    rpc = RPC(**dict(dict(err_bias=None, err_rand=None), **rpc))
                    ref = RpcCamera(tuple(int(v) for v in f['im_size']), rpc)
                    p = np.array([[rpc.long_off + 0.1, rpc.lat_off - 0.2, rpc.height_off + 0.5]]).T
                    cam = got[-1].get(c['id'])
                    same = np.allclose(cam.world_to_pixel(p), ref.world_to_pixel(p), rtol=0, atol=1e-9, equal_nan=True)
                else:
                    t, kw = kwargs(case, c)
                    cam = got[-1].get(f'im{k}.tif')
                    if layout == 'reconstruction':
                        e = got[0] and param_io.OsfmReader(path).read_ext_param()[f'im{k}.tif']
                        p = np.array(e['xyz']).reshape(3, 1) + np.array([[1.0, -2.0, -50.0], [-4.0, 3.0, -60.0]]).T
                    else:
                        e, p = exts[f'im{k}.tif'], xyz
                    ref = create_camera(t, xyz=e['xyz'], opk=e['opk'], **kw)
                    same = cam.im_size == tuple(kw['im_size']) and np.allclose(cam.world_to_pixel(p), ref.world_to_pixel(p), rtol=0, atol=1e-9, equal_nan=True)
                if not same:
                    out['projects'] = c['id']
            except Exception as ex:
                out['projects'] = f'{c["id"]}: {type(ex).__name__}: {ex}'[:200]
    return out


MODEL = 'SPECIFICATION Spec\nCONSTANT Docs <- MCDocs\nINVARIANTS NothingDropped NothingInvented RejectedIff\nPROPERTY Decides\nCHECK_DEADLOCK FALSE\n'


def main(c):
    c.model('IntDocMC', MODEL)
    cases = c.generate('C13Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C13Trace', runs, cfg='CONSTANT Failing <- C13Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['case']['ok']}
    c.rule = 'documents of C13Gen.tla (layouts, types, fields, and each way to be invalid) read in each way; IntDoc.tla gives the parameters or the rejection'
    c.assumptions.append('keys of a YAML or JSON mapping are unique')
