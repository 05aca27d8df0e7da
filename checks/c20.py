"""C20: the command line gives, image by image, what the API gives for that image alone."""
import json
import os
import subprocess
import sys
import warnings
from pathlib import Path

import numpy as np
import rasterio as rio
import yaml
from rasterio.transform import from_origin
from rasterio.warp import transform

import world
from c10 import forked
from vf import num

OTHER = 'EPSG:32734'
EXPORTS = dict(frame=['int_param.yaml', 'ext_param.geojson'], exif=['int_param.yaml', 'ext_param.geojson'], odm=['int_param.yaml', 'ext_param.geojson'], rpc=['rpc_param.yaml', 'gcps.geojson'])


# ---------------------------------------------------------------- the world of a request
def source(case, im):
    d = dict(odm='data/images').get(case['cmd'], f'src/{im["dir"]}')
    return f'{d}/{im["stem"]}.tif'


def pose_crs(case, i):
    """CRS that the projected positions of image i are in."""
    im = case['images'][i]
    if case['params'] == 'csv' and not case['job']['crs']:
        return OTHER if im['crs'] == 'other' else world.CRS
    return case['job']['crs'] or world.CRS


def write_frame(case, d):
    ims = case['images']
    cams = {f'cam {k}': world.interior(k) for k in range(3)}
    (d / 'int.yaml').write_text(yaml.safe_dump(cams, sort_keys=False))
    lla = case['params'] == 'lla'
    rows = ['filename,latitude,longitude,altitude,roll,pitch,yaw,camera' if lla else 'filename,x,y,z,omega,phi,kappa,camera']
    feats = []
    for i, im in enumerate(ims):
        if not im['known']:
            continue
        (x, y, z), opk = world.pose(im['k'])
        cam = f'cam {im["k"] % 3}' if case['broken'] != 'camera' else 'other'
        if lla:
            lon, lat, alt = (v[0] for v in transform(world.CRS, case['job']['lla'], [x], [y], [z]))
            pos, ori = (lat, lon, alt), (0.02 * im['k'], -0.03, 0.4 * im['k'])
        else:
            (x,), (y,) = transform(world.CRS, pose_crs(case, i), [x], [y])
            pos, ori = (x, y, z), opk
        angles = ori if case['job']['radians'] else np.degrees(ori).tolist()
        rows.append(','.join([f'{im["stem"]}.tif', *map(repr, map(float, pos)), *map(repr, map(float, angles)), cam]))
        feats.append(dict(type='Feature', properties=dict(filename=f'{im["stem"]}.tif', camera=cam, xyz=list(map(float, pos)), opk=list(ori)), geometry=dict(type='Point', coordinates=[0.0, 0.0, 0.0])))
    (d / 'ext.csv').write_text('\n'.join(rows) + '\n')
    if case['params'] == 'prj':
        (d / 'ext.prj').write_text(rio.CRS.from_string(world.CRS).to_wkt())
    (d / 'ext.geojson').write_text(json.dumps(dict(type='FeatureCollection', world_crs=world.CRS, features=feats)))
    ext = d / ('ext.geojson' if case['params'] == 'geojson' else 'ext.csv')
    if case['broken'] == 'int':
        (d / 'int.yaml').write_text('cam:\n  type: pinhole\n  im_size: 3\n')
    elif case['broken'] == 'inttype':
        (d / 'int.yaml').rename(d / 'int.txt')
    elif case['broken'] == 'ext':
        ext.write_text('filename,x,y\n')
    return d / ('int.txt' if case['broken'] == 'inttype' else 'int.yaml'), ext


def make(case, d):
    for sub in ['src/a', 'src/b', 'out', 'alone', 'data']:
        (d / sub).mkdir(parents=True)
    cmd, job = case['cmd'], case['job']
    if cmd == 'sharpen':
        x0, y0 = world.X0, world.Y0
        dt = case['images'][0]['dtype']
        far = 5000.0 if case['broken'] == 'apart' else 0.0
        a = np.repeat(np.repeat(world.texture((3, 8, 10), 'uint8', 5), 4, axis=1), 4, axis=2)
        pan = np.array([a.mean(axis=0), a[0]]) + world.texture((2, 32, 40), 'uint8', 6) / 20
        world.write_image(d / 'pan.tif', pan.astype(dt), crs=world.CRS, transform=from_origin(x0 + far, y0, 1, 1), nodata=0)
        world.write_image(d / 'ms.tif', a[:, ::4, ::4].astype(dt), crs=world.CRS, transform=from_origin(x0, y0, 4, 4), nodata=0)
        if case['images'][0]['out'] == 'old':
            world.write_image(d / 'out/sharp.tif', world.texture((1, 7, 9)))
        return
    dem = d / 'dem.tif'
    if cmd == 'odm':
        world.odm(d / 'data' / 'x', 4)
        for p in (d / 'data' / 'x').iterdir():
            p.rename(d / 'data' / p.name)
        dem = d / 'data/odm_dem/dsm.tif'
        for p in (d / 'data/images').iterdir():
            p.unlink()
        rec = d / 'data/opensfm/reconstruction.json'
        js = json.loads(rec.read_text())
        js[0]['shots'] = {im['stem'] + '.tif': js[0]['shots'][f'im{im["k"]}.tif'] for im in sorted(case['images'], key=lambda im: im['k']) if im['known']}
        js[0]['shots'] = js[0]['shots'] or {'zz.tif': dict(rotation=[0.0] * 3, translation=[0.0] * 3, camera='v2 cam 0')}
        rec.write_text('[{}]' if case['broken'] == 'rec' else json.dumps(js))
    kw = dict(x0=1000.0) if case['dem'] == 'far' else dict(crs=None) if case['dem'] == 'nocrs' else {}
    world.dem(dem, band=2 if job['dem_band'] == 2 else 1, **kw)
    if job['dem_band'] != 2:  # a second band
        with rio.open(dem) as f:
            a, prof = f.read(), f.profile
        with rio.open(dem, 'w', **dict(prof, count=2)) as f:
            f.write(np.concatenate([a, a * 0 - 55]))
    for i, im in enumerate(case['images']):
        if im['exists'] and not (cmd == 'odm' and case['missing'] == 'images'):
            a = world.texture((im['bands'], 40, 60), 'uint8', 40 + im['k']).astype(im['dtype'])
            kw = {}
            if im['nodata']:
                a[:, 5:12, 20:33] = 0
                kw['nodata'] = 0
            if cmd in ('frame', 'simple') and im['crs']:
                kw.update(crs=OTHER if im['crs'] == 'other' else world.CRS)
            if cmd == 'exif' and im['known']:
                kw.update(tags=world.exif_tags(im['k']), xmp=world.XMP.format(1.5 * im['k'], -2.0 + im['k'], 40.0 * im['k']))
            if cmd == 'rpc' and im['known'] and case['params'] != 'file':
                kw.update(rpcs=world.rpc(im['k']))
            if cmd == 'rpc' and im['gcps']:
                gcps = world.gcps(im['k'])[: im['gcps']]
                kw.update(gcps=[rio.control.GroundControlPoint(row=g['ji'][1], col=g['ji'][0], x=g['xyz'][0], y=g['xyz'][1], z=g['xyz'][2], id=g['id'], info='') for g in gcps], crs=world.LLA)
            world.write_image(d / source(case, im), a, **kw)
        if im['out'] == 'old':
            out_path(case, d, im).parent.mkdir(exist_ok=True)
            world.write_image(out_path(case, d, im), world.texture((1, 7, 9)))
    if case['exported'] == 'old':
        for f in EXPORTS[cmd]:
            (d / 'out' / f).write_text('old\n')
    if cmd == 'frame':
        write_frame(case, d)
    if cmd == 'rpc':
        if case['params'] == 'file':
            from orthority.enums import CameraType
            from orthority.param_io import write_rpc_param

            write_rpc_param(d / 'rpc.yaml', {im['stem'] + '.tif': dict(cam_type=CameraType.rpc, im_size=(60, 40), rpc=world.rpc(im['k']).to_dict()) for im in case['images'] if im['known']})
            if case['broken'] == 'rpc':
                (d / 'rpc.yaml').write_text('im0.tif:\n  type: rpc\n')
        feats = []
        for im in case['images']:
            for g in world.gcps(im['k'])[: im['gcps']]:
                feats.append(dict(type='Feature', properties=dict(filename=im['stem'] + '.tif', ji=g['ji'], id=g['id'], info=''), geometry=dict(type='Point', coordinates=g['xyz'])))
        (d / 'gcps').write_text('{}' if case['broken'] == 'gcps' else json.dumps(dict(type='FeatureCollection', features=feats)))
    (d / 'nocrs.tif').unlink(missing_ok=True)
    world.write_image(d / 'nocrs.tif', world.texture((1, 5, 5)))
    (d / 'broken.txt').write_text('no CRS\n')


def out_path(case, d, im):
    if case['cmd'] == 'sharpen':
        return d / 'out' / 'sharp.tif'
    if case['cmd'] == 'odm' and case['process']:  # in the data set
        return d / 'data' / 'orthority' / (im['stem'] + '_ORTHO.tif')
    if case['cmd'] == 'simple' and case['name'][-1] in '1357':  # beside the source
        return (d / source(case, im)).with_name(im['stem'] + '_ORTHO.tif')
    return d / 'out' / (im['stem'] + '_ORTHO.tif')


# ---------------------------------------------------------------- the command line
def word(w, d):
    """The word of the command line that a word of the model stands for."""
    crs = rio.CRS.from_string(world.CRS)
    if w.startswith('crs:'):
        if w[4:] == 'text':
            (d / 'crs.txt').write_text(crs.to_wkt())
            return d / 'crs.txt'
        if w[4:] == 'bare':  # a file without an extension
            (d / 'crs').write_text(crs.to_proj4())
            return d / 'crs'
        if w[4:].lower() in ('tif', 'tiff'):
            return world.write_image(d / f'crs.{w[4:]}', world.texture((1, 4, 4)), crs=crs)
        return dict(epsg=world.CRS, wkt=crs.to_wkt(), proj4=crs.to_proj4())[w[4:]]
    return d / w[5:] if w.startswith('file:') else w


def words(case, d):
    cmd = case['cmd']
    a = [word(w, d) for o in case['opts'] for w in o['args']] + [word(w, d) for w in case['badopt']]
    if cmd == 'sharpen':
        ends = ['-p', d / ('no.tif' if case['missing'] == 'pan' else 'pan.tif'), '--multispectral', d / ('no.tif' if case['missing'] == 'ms' else 'ms.tif')]
        return ['sharpen', *ends, '-of', d / 'out/sharp.tif', *a]
    b = []
    if cmd != 'odm' and case['dem'] != 'none':
        b += ['-d', d / ('no.tif' if case['dem'] == 'missing' else 'dem.tif')]
    if cmd == 'frame':
        ip, ep = d / ('int.txt' if case['broken'] == 'inttype' else 'int.yaml'), d / ('ext.geojson' if case['params'] == 'geojson' else 'ext.csv')
        b += ['-ip', d / 'no.yaml' if case['missing'] == 'int' else ip, '--ext-param', d / 'no.csv' if case['missing'] == 'ext' else ep]
    if cmd == 'odm':
        b += ['-dd', d / ('no' if case['missing'] == 'dataset' else 'data')]
        for what, f in dict(dsm='odm_dem/dsm.tif', rec='opensfm/reconstruction.json').items():
            if case['missing'] == what:
                (d / 'data' / f).unlink()
    if cmd == 'rpc' and case['params'] == 'file':
        b += ['-rp', d / ('no.yaml' if case['missing'] == 'rpc' else 'rpc.yaml')]
    if case['missing'] == 'gcps':
        (d / 'gcps').unlink()
    if case['outdir'] or not case['process']:
        b += ['-od', dict(none=d / 'nowhere', file=d / 'nocrs.tif').get(case['outdir'], d / 'out')]
    return [cmd, *a, *b] + ([] if cmd == 'odm' else [d / source(case, im) for im in case['images']])


def simple(case, d):
    """The deprecated command."""
    from orthority.cli import simple_ortho

    j = case['job']
    conf = {k: v for k, v in process_args(j).items() if v is not None and k not in ('creation_options', 'driver')}
    conf.update(dem_band=j['dem_band'], full_remap=j['distort'], **(dict(crs=j['crs']) if j['crs'] else {}))
    if 'resolution' in conf:
        conf['resolution'] = list(conf['resolution'])
    (d / 'conf.yaml').write_text(yaml.safe_dump(dict(camera=dict(name='x', **world.interior(case['images'][0]['k'])), ortho=conf)))
    rows = []
    for i, im in enumerate(case['images']):
        (x, y, z), opk = world.pose(im['k'])
        (x,), (y,) = transform(world.CRS, pose_crs(case, i), [x], [y])
        rows.append(' '.join([im['stem'], *map(repr, (x, y, z)), *(repr(float(v)) for v in np.degrees(opk))]))
    (d / 'pos.txt').write_text('\n'.join(rows) + '\n')
    od = [] if case['name'][-1] in '1357' else ['-od', str(d / 'out')]
    simple_ortho([*(str(d / source(case, im)) for im in case['images']), str(d / 'dem.tif'), str(d / 'pos.txt'), '-rc', str(d / 'conf.yaml'), *od])
    return dict(exit=0, traceback=False, message=True)


def command(case, d):
    if case['cmd'] == 'simple':
        return simple(case, d)
    a = [str(w) for w in words(case, d)]
    if case['process']:
        r = subprocess.run([sys.executable, '-c', 'from orthority.cli import cli; cli()', *a], cwd=d / 'out', capture_output=True, text=True)
        return dict(exit=r.returncode, traceback='Traceback' in r.stderr, message='Error' in r.stderr, text=r.stderr[-300:])
    code, out, ex = world.cli(a)
    return dict(exit=code, traceback=ex is not None and not isinstance(ex, SystemExit), message='Error' in out, text=out[-300:] + repr(ex)[-200:])


# ---------------------------------------------------------------- the API
def none(v):
    return None if v == 'none' else v


def process_args(j):
    return dict(
        resolution=tuple(num(v) for v in j['resolution']) or None, interp=j['interp'], dem_interp=j['dem_interp'], per_band=j['per_band'], build_ovw=j['build_ovw'], driver=j['driver'],
        write_mask=none(j['write_mask']), dtype=none(j['dtype']), compress=none(j['compress']), creation_options={k: yaml.safe_load(v) for k, v in j['creation']} or None,
    )  # fmt: skip


def cameras(case, d, sources):
    """The camera collection of a request, and the CRS of its parameters."""
    from orthority.factory import FrameCameras, RpcCameras

    j = case['job']
    crs, cam_kw = j['crs'] or None, dict(distort=j['distort'], alpha=float(num(j['alpha'])))
    if case['cmd'] == 'frame':
        c = FrameCameras(d / 'int.yaml', d / ('ext.geojson' if case['params'] == 'geojson' else 'ext.csv'), io_kwargs=dict(crs=crs, lla_crs=j['lla'], radians=j['radians']), cam_kwargs=cam_kw)
        return c, c.crs
    if case['cmd'] == 'exif':
        c = FrameCameras.from_images(sources, io_kwargs=dict(crs=crs, lla_crs=j['lla']), cam_kwargs=cam_kw)
        return c, c.crs
    if case['cmd'] == 'odm':
        rec = d / 'data/opensfm/reconstruction.json'
        return FrameCameras(rec, rec, io_kwargs=dict(crs=crs or world.CRS), cam_kwargs=cam_kw), world.CRS
    c = RpcCameras(d / 'rpc.yaml', cam_kwargs=dict(crs=crs)) if case['params'] == 'file' else RpcCameras.from_images(sources, cam_kwargs=dict(crs=crs))
    if j['refine'] != 'none':
        c.refine(d / 'gcps' if j['refine'] == 'file' else sources, fit_kwargs=dict(method=j['method']))
    return c, world.LLA


def alone(case, d, i):
    """The output of image i, with the API."""
    from orthority.camera import create_camera
    from orthority.ortho import Ortho
    from orthority.pan_sharp import PanSharpen

    warnings.simplefilter('ignore')
    j, im = case['job'], case['images'][i]
    out = d / 'alone' / f'{i}.tif'
    if case['cmd'] == 'sharpen':
        a = {k: v for k, v in process_args(j).items() if k not in ('resolution', 'dem_interp', 'per_band')}
        PanSharpen(d / 'pan.tif', d / 'ms.tif').process(out, pan_index=j['pan_index'], ms_indexes=j['ms_indexes'] or None, weights=[num(v) for v in j['weights']] or None, **a)
        return look(out)
    src, dem = d / source(case, im), d / ('data/odm_dem/dsm.tif' if case['cmd'] == 'odm' else 'dem.tif')
    if case['cmd'] == 'simple':
        (x, y, z), opk = world.pose(im['k'])
        (x,), (y,) = transform(world.CRS, pose_crs(case, i), [x], [y])
        ip = dict(world.interior(case['images'][0]['k']))
        cam, crs = create_camera(ip.pop('type'), **ip, xyz=(x, y, z), opk=tuple(np.radians(np.degrees(opk)).tolist()), distort=j['distort']), None
    else:
        cams, crs = cameras(case, d, [src])
        cam = cams.get(src)
    Ortho(src, dem, cam, crs=j['crs'] or crs, dem_band=j['dem_band']).process(out, **process_args(j))
    return look(out)


def look(path):
    """What can be seen of an image."""
    import zlib

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as im:
            res = dict(
                profile={k: str(v) for k, v in im.profile.items()}, color=[c.name for c in im.colorinterp], mask=[[f.name for f in m] for m in im.mask_flag_enums],
                tags=im.tags(), struct=im.tags(ns='IMAGE_STRUCTURE'), overviews=[im.overviews(b) for b in im.indexes], desc=[str(v) for v in im.descriptions],
            )  # fmt: skip
            arrays = [im.read(), im.dataset_mask()]
        for k in range(len(res['overviews'][0])):
            with rio.open(path, overview_level=k) as im:
                arrays += [im.read(), im.dataset_mask()]
    return json.dumps(res, sort_keys=True), [zlib.crc32(np.ascontiguousarray(a).tobytes()) for a in arrays]


def attempt(func):
    try:
        return func()
    except Exception as ex:
        return repr(ex)


def drive(case, tmp):
    import orthority.camera  # noqa: F401

    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)  # GDAL's messages

    warnings.simplefilter('ignore')
    d = Path(tmp)
    n = len(case['images'])
    forked(lambda: make(case, d))
    export = case['job']['export']
    ref, kept = [None] * n, [None] * n
    if not export:
        ok = not case['badopt'] and not case['broken'] and not case['missing'] and case['dem'] == 'ok'
        ref = [forked(lambda i=i: attempt(lambda: alone(case, d, i))) if ok and im['exists'] and im['known'] else None for i, im in enumerate(case['images'])]
    elif not case['errors']:

        def write():
            warnings.simplefilter('ignore')
            cameras(case, d, [d / source(case, im) for im in case['images']])[0].write_param(d / 'alone')

        forked(write)
    old = {p: p.read_bytes() for p in [*(d / 'out').iterdir(), *(d / 'src').rglob('*_ORTHO.tif'), *(d / 'data').glob('orthority/*')]}
    inputs = {p: p.read_bytes() for p in d.rglob('*') if p.is_file() and d / 'alone' not in p.parents and p not in old}
    res = forked(lambda: command(case, d))
    res['outcome'] = 'ok'
    res['outs'], orthos = [], []
    for im, r in zip(case['images'], ref):
        p = out_path(case, d, im)
        orthos.append(p)
        seen = look(p) if p.exists() and p.read_bytes() != old.get(p) else None
        res['outs'].append('old' if p in old and seen is None else 'none' if seen is None else 'alone' if seen == r else 'other')
        if res['outs'][-1] == 'other':
            res['diff'] = [str(seen)[:900], str(r)[:900]]
    files = [p for p in d.rglob('*') if p.is_file() and d / 'alone' not in p.parents]
    made = ['crs.txt', 'crs', 'crs.tif', 'crs.TIFF', 'conf.yaml', 'pos.txt']
    exports = [d / 'out' / f for f in EXPORTS.get(case['cmd'], [])] if export else []
    extra = [str(p.relative_to(d)) for p in files if p not in inputs and p not in orthos and p not in exports and p not in old and p.name not in made and not p.name.endswith('.aux.xml')]
    extra += [str(p.relative_to(d)) for p in inputs if case['missing'] == '' and (not p.exists() or p.read_bytes() != inputs[p])]
    res.update(extra=len(extra), what=extra[:3], exported='none')
    if export:
        have = {p.name: p.read_bytes() for p in exports if p.exists()}
        want = {p.name: p.read_bytes() for p in (d / 'alone').iterdir()}
        res['exported'] = 'none' if not have else 'alone' if want and {n: have.get(n) for n in want} == want and all(v == b'old\n' for n, v in have.items() if n not in want) else 'old' if all(v == b'old\n' for v in have.values()) else 'other'
    return res


MODEL = 'INIT Init\nNEXT Next\nINVARIANT ExitRight\nINVARIANT OutsGood\nINVARIANT NeverOther\nINVARIANT OldKept\nINVARIANT OrderFree\n'


def main(c):
    c.model('CliMC', MODEL)
    cases = c.generate('C20Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases, timeout=240)
    c.judge('C20Trace', runs, cfg='CONSTANT Failing <- C20Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if 'alone' in [*r['obs'].get('outs', []), r['obs'].get('exported')]}
    c.rule = 'commands, options, image lists and user errors of C20Gen.tla; each output is compared with that of the API for the image alone, with the job that Cli.tla gives it'
    c.assumptions += ['images of an exif request without --crs are in one UTM zone', '--crs is not given together with a GeoJSON file of another CRS']
