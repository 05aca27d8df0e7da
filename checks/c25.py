"""C25: images that cameras read and remap show the source where the model says, and the nodata value elsewhere."""
import warnings
from contextlib import ExitStack

import numpy as np

import camlib
import scene
from vf import num


def text(v):
    return 'nan' if np.isnan(v) else repr(float(v))


def drive(case, tmp):
    import fsspec
    import rasterio as rio

    warnings.simplefilter('ignore')
    cam = camlib.make_frame(case['cam']) if case['kind'] == 'frame' else camlib.make_rpc(case['rpc'], case['size'])
    src = scene.write_src(case, tmp / 'src.tif')
    nodata = None if case['nodata'] == 'none' else num(case['nodata'])
    nodata = int(nodata) if nodata is not None and nodata == nodata and len(case['pts'][0][0]) % 2 else nodata
    idx = case['indexes'] or None
    if idx and len(idx) == 1 and case['scalar']:
        idx = idx[0]
    opt = dict(nodata=nodata, interp=case['interp'])
    x, y, z = (np.array([num(p[k]) for p in case['pts']]).reshape(case['rows'], case['cols']) for k in range(3))
    z = z.astype(case['zdtype'])
    out = dict(outcome='ok', error='')
    with ExitStack() as st:
        way = case['way']
        f = str(src) if way == 'str' else fsspec.open(str(src), 'rb') if way == 'openfile' else st.enter_context(rio.open(src)) if way == 'dataset' else src
        im = cam.read(f, indexes=idx, dtype=None if case['out'] == 'none' else case['out'], **opt)
    s = case['spoil']
    rim, rx, rz = im, x, z
    if case['dark']:
        rim = im.copy()
        rim[0, :, : im.shape[2] // 2] = num(case['blank'])
    if s == 'shape-x':
        rx = x[:-1]
    elif s == 'shape-z':
        rz = z[:, :-1]
    elif s == 'float32-x':
        rx = x.astype('float32')
    elif s == 'int-z':
        rz = np.nan_to_num(z).astype('int32')
    elif s == 'flat':
        rx, y, rz = x.ravel(), y.ravel(), z.ravel()
    elif s == 'image-2d':
        rim = im[0]
    elif s == 'image-int32':
        rim = np.nan_to_num(im).astype('int32')
    elif s == 'image-bool':
        rim = np.ones(im.shape, 'bool')
    elif s == 'image-wide':
        rim = np.zeros((1, 2, 40000), 'uint8')
    before = [a.copy() for a in (rim, rx, y, rz)]
    try:
        got, mask = cam.remap(rim, rx, y, rz, **opt)
    except Exception as ex:
        out.update(error=type(ex).__name__, message=str(ex)[:200])
        return out
    out['unchanged'] = all(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(before, (rim, rx, y, rz)))
    h, w = im.shape[1:]
    spots = sorted({(min(round(a * (w - 1) / 8), w - 1), min(round(b * (h - 1) / 7), h - 1)) for a in range(9) for b in range(8)})
    out['read'] = dict(shape=list(im.shape), dtype=str(im.dtype), points=[dict(j=j, i=i, v=[text(v) for v in im[:, i, j]]) for j, i in spots])
    out['remap'] = dict(shape=list(got.shape), dtype=str(got.dtype), mask=list(mask.shape))
    if got.shape[1:] == mask.shape == x.shape:
        out['points'] = [dict(v=[text(v) for v in got[:, r, c]], m=bool(mask[r, c])) for r in range(x.shape[0]) for c in range(x.shape[1])]
    return out


def main(c):
    cases = c.generate('C25Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C25Trace', runs, cfg='CONSTANT Failing <- C25Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['obs'].get('points')}
    c.level = 'exploration'
    c.rule = 'cameras, settings and calls of C25Gen.tla; Resample.tla (on Camera.tla and Ortho.tla) decides each value, mask and type'
    c.assumptions += ['source pixels do not hold the nodata value', 'positions within the interpolation support of the image border are left open']
