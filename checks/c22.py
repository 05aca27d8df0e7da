"""C22: reading many images together equals reading each one alone, in the given order."""
import threading
import warnings
from pathlib import Path
from unittest import mock

import numpy as np

import world

READ = {}


def sources(d, what, n, kinds):
    d.mkdir()
    out = []
    for k in range(n):
        p = d / f'im{k:02d}x.tif'
        kind = kinds[k]
        if what.startswith('exif'):
            tags = world.exif_tags(k % 7, focal=25.0 + k)
            if kind == 'broken-tags':
                tags['EXIF_FocalLength'] = '(abc)'
            kw = dict(tags=tags, xmp=world.XMP.format(1.5 * k, -2.0 + k, 11.0 * k)) if kind != 'none' else {}
        else:
            kw = dict(rpcs=world.rpc(k)) if what.startswith('rpc') else {}
            if what == 'gcps':
                kw = dict(gcps=[world.GroundControlPoint(row=g['ji'][1], col=g['ji'][0], x=g['xyz'][0], y=g['xyz'][1], z=g['xyz'][2], id=g['id'], info='') for g in world.gcps(k)], crs=world.LLA)
            kw = kw if kind != 'none' else {}
        if kind != 'missing':
            world.write_image(p, world.texture((1, 40, 60), 'uint8', 20 + k), **kw)
        if kind == 'nonsense' or kind == 'broken-tags' and not what.startswith('exif'):
            p.write_text('this is not an image')
        out.append(p)
    return out


class Gate:
    """Lets reads of files go on in a given order."""

    def __init__(self, names):
        self.names, self.at, self.cond = names, 0, threading.Condition()
        import rasterio

        self.open = rasterio.open

    def __call__(self, fp, *args, **kwargs):
        name = Path(str(getattr(fp, 'path', None) or getattr(fp, 'name', None) or fp)).name
        k = self.names.index(name) if name in self.names else None
        if k is not None:
            with self.cond:
                self.cond.wait_for(lambda: self.at >= k, timeout=2)
        try:
            return self.open(fp, *args, **kwargs)
        finally:
            if k is not None:
                threading.Timer(0.004, self.next, [k]).start()

    def next(self, k):
        with self.cond:
            self.at = max(self.at, k + 1)
            self.cond.notify_all()


def read(what, files, tmp, progress=False):
    """Returns {name: values}, in order."""
    from orthority import param_io
    from orthority.factory import FrameCameras, RpcCameras

    tmp.mkdir(exist_ok=True)
    if what == 'exif':
        r = param_io.ExifReader(files, crs=world.CRS, progress=progress)
        i = r.read_int_param()
        return {n: (e['xyz'], e['opk'], i[e['camera']]) for n, e in r.read_ext_param().items()}
    if what == 'rpc':
        return param_io.read_im_rpc_param(files, progress=progress)
    if what == 'gcps':
        return param_io.read_im_gcps(files, progress=progress)
    if what == 'rpc-cameras':
        c = RpcCameras.from_images(files, io_kwargs=dict(progress=progress))
        c.write_param(tmp)
        return param_io.read_oty_rpc_param(tmp / 'rpc_param.yaml')
    c = FrameCameras.from_images(files, io_kwargs=dict(crs=world.CRS, progress=progress))
    c.write_param(tmp)
    i, e = param_io.read_oty_int_param(tmp / 'int_param.yaml'), param_io.OtyReader(tmp / 'ext_param.geojson').read_ext_param()
    return {n: (e['xyz'], e['opk'], i[e['camera']]) for n, e in e.items()}


def drive(case, tmp):
    import fsspec
    import rasterio as rio

    warnings.simplefilter('ignore')
    n, what = len(case['kind']), case['what']
    paths = sources(tmp / 'in', what, n, case['kind'])
    out = dict(outcome='ok', error='', names=[], same=[], named=[False] * n)
    alone = [read(what, [p], tmp / f'o{k}') if case['kind'][k] == 'ok' else None for k, p in enumerate(paths)]
    files, opened = [], []
    for k, (p, way) in enumerate(zip(paths, case['way'])):
        if way == 'dataset' and case['kind'][k] == 'ok':
            opened.append(rio.open(p))
            files.append(opened[-1])
        else:
            files.append(dict(str=str(p), openfile=fsspec.open(str(p), 'rb')).get(way, p))
    gate = Gate([paths[i - 1].name for i in case['order'] if case['way'][i - 1] != 'dataset' or case['kind'][i - 1] != 'ok'])
    try:
        with mock.patch('rasterio.open', gate):
            res = read(what, files, tmp / 'all', progress=dict(disable=True) if case['progress'] else False)
        names = [p.name for p in paths]
        out['names'] = [names.index(m) + 1 if m in names else 0 for m in res]
        out['same'] = [repr(list(alone[k].values())[0]) == repr(res.get(p.name)) for k, p in enumerate(paths)]
    except Exception as ex:
        out['error'] = type(ex).__name__
        out['message'] = str(ex)[:300]
        out['named'] = [p.name in str(ex) for p in paths]
    finally:
        for ds in opened:
            ds.close()
    return out


MODEL = (
    'SPECIFICATION Spec\nCONSTANTS\n Kinds <- MCKinds\n Workers = 2\nINVARIANTS Ordered Complete_ NoPartial NamesFailing ReturnsIffOk\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'
)


def main(c):
    c.model('ReadersMC', MODEL)
    cases = c.generate('C22Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C22Trace', runs, cfg='CONSTANT Failing <- C22Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if len(r['case']['kind']) > 1}
    c.rule = 'lists of images with the completion orders and failing positions of C22Gen.tla; Readers.tla says what each may end as'
    c.assumptions.append('file names of a list are different')
