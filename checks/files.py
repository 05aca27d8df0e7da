"""Replays histories of calls that write files (Files.tla) and records the files after each."""
import os
import warnings
import zlib
from pathlib import Path

import numpy as np
import rasterio as rio
from rasterio.io import MemoryFile
from rasterio.transform import from_origin

import world
from world import CRS

FILES = dict(
    a='a.tif', b='b.tif', c0='im0_ORTHO.tif', c1='im1_ORTHO.tif', int='int_param.yaml', ext='ext_param.geojson', rpc='rpc_param.yaml', gcp='gcps.geojson'
)  # fmt: skip


def inputs(d):
    d.mkdir()
    w = dict(dir=d)
    w['src'] = world.sources(d, 2)
    w['dem'] = world.dem(d / 'dem.tif')
    w['far_dem'] = world.dem(d / 'far.tif', x0=world.X0 + 90000)
    w['int'], w['csv'], w['gj'] = world.frame_params(d, 2, cams=2)
    (d / 'nocrs').mkdir()
    w['nocrs_int'], w['nocrs_csv'], _ = world.frame_params(d / 'nocrs', 2, cams=2, crs=None)
    (d / 'one').mkdir()
    w['one_int'], w['one_csv'], w['one_gj'] = world.frame_params(d / 'one', 1)
    (d / 'rpc').mkdir()
    w['rpc'] = world.rpc_sources(d / 'rpc', 2)

    def im(name, a, res, x0=world.X0):
        return world.write_image(d / name, a, crs=CRS, transform=from_origin(x0, world.Y0, res, res), nodata=0)

    rng = np.random.default_rng(7)
    w['pan'] = im('pan.tif', rng.integers(50, 200, (1, 32, 48)).astype('uint8'), 1.0)
    w['ms'] = im('ms.tif', rng.integers(50, 200, (3, 8, 12)).astype('uint8'), 4.0)
    w['flat_ms'] = im('flat.tif', np.full((3, 8, 12), 90, 'uint8'), 4.0)
    w['far_ms'] = im('farms.tif', rng.integers(50, 200, (3, 8, 12)).astype('uint8'), 4.0, world.X0 + 5000)
    return w


class Loc:
    """A directory on the local or the memory file system."""

    def __init__(self, root, fs='local'):
        import fsspec

        self.root, self.kind = root, fs
        self.fs = fsspec.filesystem('memory' if fs == 'memory' else 'file')
        self.prefix = f'memory://{root}' if fs == 'memory' else str(root)
        self.fs.makedirs(self.prefix, exist_ok=True)

    def __truediv__(self, name):
        return f'{self.prefix}/{name}'

    def data(self, name):
        return self.fs.cat_file(self / name) if self.fs.isfile(self / name) else None

    def digest(self, name):
        d = self.data(name)
        return 'none' if d is None else f'{zlib.crc32(d):08x}-{len(d)}'

    def content(self, name):
        """What is in a file, apart from how it is laid out."""
        d = self.data(name)
        if d is None or not name.endswith('.tif'):
            return self.digest(name)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                with MemoryFile(d) as mf, mf.open() as im:
                    t = (im.profile.items(), im.tags(), im.colorinterp, im.descriptions, [im.overviews(b) for b in im.indexes], im.mask_flag_enums)
                    return f'{zlib.crc32(im.read().tobytes()):08x}-{zlib.crc32(im.read_masks().tobytes()):08x}-{zlib.crc32(str(t).encode()):08x}'
            except Exception as ex:
                return f'unreadable {type(ex).__name__}'

    def names(self):
        return sorted(Path(p).name for p in self.fs.find(self.prefix))

    def handle(self, name, k, mode='wb'):
        import fsspec

        if self.kind == 'memory':
            return [self / name, fsspec.open(self / name, mode)][k % 2]
        return [Path(self / name), self / name, Path(self / name).as_uri(), fsspec.open(self / name, mode)][k % 4]

    def dir(self, k):
        return self.prefix if self.kind == 'memory' else [Path(self.prefix), self.prefix, Path(self.prefix).as_uri()][k % 3]


def digest(path):
    return f'{zlib.crc32(path.read_bytes()):08x}' if path.is_file() else 'none'


def call(c, w, out, k):
    """Performs one call."""
    op, var, f = c['op'], c['var'], c['fault']
    return dict(ortho=ortho, pan=pan, frame=frame, rpc=rpc).get(op, cli if op.startswith('cli') else param)(c, w, out, k, op, var, f)


def out_file(c, out, k, f):
    import fsspec

    if f == 'out-mode':
        return fsspec.open(out / FILES[c['out']], 'rb')
    return out.handle(FILES[c['out']], k)


def ortho(c, w, out, k, op, var, f):
    from orthority.camera import create_camera
    from orthority.ortho import Ortho

    i = dict(world.interior(0))
    xyz, opk = world.pose(0)
    cam = create_camera(i.pop('type'), **i, **({} if f == 'no-exterior' else dict(xyz=xyz, opk=opk)))
    src = w['src'][var - 1] if f != 'missing-source' else w['dir'] / 'none.tif'
    if f == 'closed-source':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            src = rio.open(src)
            src.close()
    dem = dict({'missing-dem': w['dir'] / 'nodem.tif', 'no-overlap': w['far_dem']}).get(f, w['dem'])
    kw = {
        'interp': dict(interp='foo'), 'dem-interp': dict(dem_interp='foo'), 'dtype': dict(dtype='int32'), 'compress': dict(compress='foo'),
        'driver': dict(driver='png'), 'jpeg-dtype': dict(compress='jpeg', dtype='int16'), 'interleave': dict(creation_options=dict(interleave='foo')),
        'block-size': dict(creation_options=dict(tiled=True, blockxsize=17, blockysize=16)),
    }.get(f, {})  # fmt: skip
    crs = 'EPSG:4326' if f == 'geographic-crs' else CRS
    o = Ortho(src, dem, cam, crs=crs, dem_band=5 if f == 'dem-band' else 1)
    res = (3.0, 3.0) if var == 1 else (2.0, 2.0)
    o.process(out_file(c, out, k, f), **dict(dict(resolution=res, overwrite=c['ow'], per_band=var == 2, compress='deflate'), **kw))


def pan(c, w, out, k, op, var, f):
    from orthority.pan_sharp import PanSharpen

    ms = {'missing-ms': w['dir'] / 'none.tif', 'no-overlap': w['far_ms'], 'no-weights': w['flat_ms']}.get(f, w['ms'])
    p = w['pan']
    if f == 'closed-pan':
        p = rio.open(p)
        p.close()
    kw = {
        'interp': dict(interp='foo'), 'dtype': dict(dtype='int32'), 'compress': dict(compress='foo'), 'driver': dict(driver='png'),
        'jpeg-dtype': dict(compress='jpeg', dtype='int16'), 'pan-index': dict(pan_index=2), 'ms-index': dict(ms_indexes=[1, 4], weights=None),
        'weights-count': dict(weights=[1, 1]), 'weights-negative': dict(weights=[1, 1, -1]), 'no-weights': dict(weights=None),
    }.get(f, {})  # fmt: skip
    PanSharpen(p, ms).process(
        out_file(c, out, k, f), **dict(dict(weights=[1.0, 1.0, 1.0 * var], overwrite=c['ow'], compress='deflate', dtype='int16' if var == 2 else None), **kw)
    )


def frame_cameras(w, var, f):
    from orthority.factory import FrameCameras

    if f == 'no-crs':
        return FrameCameras(str(w['nocrs_int']), str(w['nocrs_csv']))
    return FrameCameras(str(w['int' if var == 1 else 'one_int']), str(w['gj' if var == 1 else 'one_gj']))


def export_dir(out, k, f):
    return Path(out / 'nosuchdir') if f == 'missing-dir' else out.dir(k)


def frame(c, w, out, k, op, var, f):
    frame_cameras(w, var, f).write_param(export_dir(out, k, f), overwrite=c['ow'])


def rpc(c, w, out, k, op, var, f):
    from orthority.factory import RpcCameras

    cams = RpcCameras.from_images(w['rpc'])
    if var == 2:
        cams.refine(w['rpc'])
    cams.write_param(export_dir(out, k, f), overwrite=c['ow'])


def param(c, w, out, k, op, var, f):
    import fsspec

    from orthority import param_io

    n = op.split('-')[1]
    h = fsspec.open(out / FILES[n], 'wb') if f == 'mode' else out.handle(FILES[n], k, 'wt')
    cams = frame_cameras(w, var, f)
    if n == 'int':
        param_io.write_int_param(h, cams._int_param_dict, overwrite=c['ow'])
    elif n == 'ext':
        param_io.write_ext_param(h, cams._ext_param_dict, crs=rio.CRS.from_string(CRS), overwrite=c['ow'])
    elif n == 'rpc':
        param_io.write_rpc_param(h, param_io.read_im_rpc_param(w['rpc'][:var]), overwrite=c['ow'])
    else:
        param_io.write_gcps(h, param_io.read_im_gcps(w['rpc'][:var]), overwrite=c['ow'])


def cli(c, w, out, k, op, var, f):
    ow = ['-o'] if c['ow'] else []
    d = out / 'nosuchdir' if f == 'missing-dir' else out.prefix
    if op in ('cli-ortho', 'cli-batch'):
        src = w['src'][: 1 if op == 'cli-ortho' else 2]
        if f == 'missing-source':
            src = [w['dir'] / 'none.tif']
        ip, ep = w['int'], w['csv']
        if f == 'no-camera':
            ip, ep = w['one_int'], w['one_csv']
            src = [w['src'][1]]
        dem = [] if f == 'no-dem' else ['-d', w['dir'] / 'nodem.tif' if f == 'missing-dem' else w['dem']]
        extra = {'interp': ['-i', 'foo'], 'dem-band': ['-db', 7], 'bad-option': ['--nosuch'], }.get(f, [])
        if f == 'jpeg-dtype':
            extra = ['-dt', 'int16', '-cm', 'jpeg']
        args = ['frame', *dem, '-ip', ip, '-ep', ep, '-r', 2 + var, *extra, '-od', d, *ow, *src]
    elif op == 'cli-pan':
        ms = w['dir'] / 'none.tif' if f == 'missing-ms' else w['ms']
        wt = ['-w', 1, '-w', 1] if f == 'weights-count' else ['-w', 1, '-w', 1, '-w', var]
        extra = {'pan-index': ['-pi', 2], 'ms-index': ['-mi', 5], 'bad-option': ['--nosuch']}.get(f, [])
        if f == 'ms-index':
            wt = []
        args = ['sharpen', '-p', w['pan'], '-ms', ms, '-of', out / FILES[c['out']], *wt, *extra, *ow]
    elif op == 'cli-frame':
        ip, ep = (w['int'], w['csv']) if var == 1 else (w['one_int'], w['one_csv'])
        if f == 'no-crs':
            ip, ep = w['nocrs_int'], w['nocrs_csv']
        if f == 'missing-int':
            ip = w['dir'] / 'none.yaml'
        src = w['src'][: 2 if var == 1 else 1]
        args = ['frame', '-ip', ip, '-ep', ep, '-e', '-od', d, *ow, *src]
    else:
        src = [w['dir'] / 'none.tif'] if f == 'missing-source' else w['rpc']
        args = ['rpc', '-c', 'EPSG:4326', *(['-gr', 'tags', '-rm', 'shift'] if var == 2 else []), '-e', '-od', d, *ow, *src]
    code, text, ex = world.cli(args)
    if code == 0:
        return
    if code == 2 and 'exists' in text:
        raise FileExistsError(text)
    if code == 2:
        raise ValueError(text[-200:])
    raise RuntimeError(f'exit code {code}: {type(ex).__name__}: {ex}')


def drive(case, tmp):
    w = inputs(tmp / 'in')
    ref = {p: digest(p) for p in sorted((tmp / 'in').rglob('*'))}
    out = Loc(tmp / 'out', case['fs'])
    os.chdir(tmp)
    steps, fresh = [], {}
    for n, st in enumerate(case['steps']):
        name = FILES.get(st['slot'], '-')
        if st['kind'] == 'put':
            out.fs.pipe_file(out / name, f'file {n} of somebody else'.encode() * 50)
        elif st['kind'] == 'empty':
            out.fs.pipe_file(out / name, b'')
        elif st['kind'] == 'break':
            out.fs.pipe_file(out / name, b'II*\0\x10\0\0\0aaaa')
        elif st['kind'] == 'rm' and out.data(name) is not None:
            out.fs.rm_file(out / name)
        if st['kind'] != 'call':
            continue
        c = st['call']
        key = (c['op'], c['var'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if c['fault'] == 'none' and key not in fresh:
                # the same call in an empty directory
                e = Loc(tmp / f'fresh{n}', case['fs'])
                try:
                    call(dict(c, ow=False), w, e, 0)
                except Exception:
                    pass
                fresh[key] = {s: e.content(FILES[s]) for s in FILES}
            before = {s: out.digest(f) for s, f in FILES.items()}
            try:
                call(c, w, out, n)
                res, err = 'ok', ''
            except FileExistsError as ex:
                res, err = 'exists', str(ex)
            except Exception as ex:
                res, err = 'error', f'{type(ex).__name__}: {ex}'
        fr = dict(fresh.get(key, {s: 'none' for s in FILES}))
        if c['out'] in ('a', 'b'):
            v = [x for x in (fr['a'], fr['b']) if x != 'none']
            fr[c['out']] = v[0] if v else 'none'
        steps.append(dict(
            step=st, res=res, error=err[:150], before=before, after={s: out.digest(f) for s, f in FILES.items()},
            content={s: out.content(f) for s, f in FILES.items()}, fresh=fr,
            inputs_same={p: digest(p) for p in sorted((tmp / 'in').rglob('*'))} == ref,
            extra=[n for n in out.names() if n not in FILES.values() and not n.endswith('.aux.xml')],
        ))  # fmt: skip
    if case['fs'] == 'memory':
        out.fs.rm(f'memory://{tmp}', recursive=True)
    return dict(outcome='ok', steps=steps)
