"""Driver for the pan-sharpening checks."""
import warnings
from contextlib import ExitStack

import numpy as np

INVALID = -99999
SHIFT = 1000000.0
PAN_CRS = '+proj=tmerc +lat_0=0 +lon_0=27 +k=1 +x_0=0 +y_0=10000000 +datum=WGS84 +units=m +no_defs'
MS_CRS = '+proj=tmerc +lat_0=0 +lon_0=27 +k=1 +x_0=1000000 +y_0=10000000 +datum=WGS84 +units=m +no_defs'


def write(path, bands, kind, dtype, crs, transform, colours=None, opts=None):
    """Write bands (3D array with INVALID for invalid), with validity of a kind."""
    import rasterio as rio
    from rasterio.enums import ColorInterp

    bad = bands == INVALID
    a = bands.astype('float64')
    prof = dict(driver='GTiff', width=a.shape[2], height=a.shape[1], count=a.shape[0], dtype=dtype, **(opts or {}))
    if crs is not None:
        prof['crs'] = crs
    if transform is not None:
        prof['transform'] = transform
    fill = 0.0
    if kind == 'nodata':
        prof['nodata'] = fill = 1.0
    elif kind == 'nan':
        prof['nodata'] = fill = float('nan')
    elif kind in ('mask', 'alpha'):
        fill = 213.0  # looks like a value
    a[bad] = fill
    valid = ~bad.any(axis=0)
    if kind == 'alpha':
        full = np.iinfo(dtype).max if np.issubdtype(np.dtype(dtype), np.integer) else 255
        a = np.concatenate((a, np.where(valid, full, 0)[None].astype('float64')))
        prof['count'] += 1
    with warnings.catch_warnings(), rio.Env(GDAL_TIFF_INTERNAL_MASK=True):
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', **prof) as im:
            ci = list(colours) if colours else [ColorInterp.gray] + [ColorInterp.undefined] * (a.shape[0] - 1)
            ci = ci[: bands.shape[0]] + ([ColorInterp.alpha] if kind == 'alpha' else [])
            im.colorinterp = ci
            im.write(a.astype(dtype))
            if kind == 'mask':
                im.write_mask(valid)
    return path


def grids(case):
    from rasterio.transform import Affine

    g, s = case['g'], float(case['scale'])
    x0, y0 = map(float, case['origin'])
    pan_t = Affine(s * g['px'], 0, x0, 0, -s * g['py'], y0)
    shift = SHIFT if case['georef'] == 'crs' else 0.0
    ms_t = Affine(s * g['mx'], 0, x0 + s * g['ox'] + shift, 0, -s * g['my'], y0 - s * g['oy'])
    return pan_t, ms_t


def build(case, d):
    from rasterio.enums import ColorInterp

    pan_t, ms_t = grids(case)
    georef = case['georef']
    pan = np.array(case['pan'])
    junk = np.where(pan[::-1, ::-1] == INVALID, 7, pan[::-1, ::-1])
    stack = [junk + k for k in range(case['panbands'])]
    stack[case['panindex'] - 1 if 0 < case['panindex'] <= case['panbands'] else 0] = pan
    if case['panmask'] == 'nodata':
        stack = [np.where(pan == INVALID, INVALID, b) for b in stack]
    ms = np.array(case['ms'])
    order = [ColorInterp.blue, ColorInterp.green, ColorInterp.red, ColorInterp.undefined]
    pan_crs = None if georef in ('nopan', 'none') else PAN_CRS
    ms_crs = None if georef in ('noms', 'none') else MS_CRS if georef == 'crs' else PAN_CRS
    p = write(d / 'pan.tif', np.array(stack), case['panmask'], case['pantype'], pan_crs, pan_t if pan_crs else None)
    m = write(d / 'ms.tif', ms, case['msmask'], case['mstype'], ms_crs, ms_t if ms_crs else None, colours=order)
    return p, m


def warp(case, path, src_t, dst_t, shape, src_crs, dst_crs, how, indexes):
    """Bands of an image on another grid, as GDAL resamples them (None where invalid)."""
    import rasterio as rio
    from rasterio.enums import Resampling
    from rasterio.vrt import WarpedVRT

    kw = dict(src_transform=src_t, transform=dst_t, height=shape[0], width=shape[1], dtype='float64', nodata=float('nan'), resampling=Resampling[how], unified_src_nodata='PARTIAL')
    if dst_crs:
        kw.update(src_crs=src_crs, crs=dst_crs)
    with rio.open(path) as ds, WarpedVRT(ds, **kw) as vrt:
        a = vrt.read(indexes=indexes)
    return [[[None if np.isnan(v) else v for v in row] for row in b] for b in a.tolist()]


def environment(case, p, m):
    from rasterio.transform import Affine

    g = case['g']
    pan_t, ms_t = grids(case)
    pan_crs = None if case['georef'] == 'none' else PAN_CRS
    ms_crs = MS_CRS if case['georef'] == 'crs' else pan_crs
    res = {}
    if case['interp'] != 'nearest':
        (c0, w), (r0, h) = window(case)
        res['env'] = warp(case, m, ms_t, pan_t * Affine.translation(c0, r0), (h, w), ms_crs, pan_crs, case['interp'], case['bands'] or list(range(1, case['nb'] + 1)))
    if not (within(g['pw'], g['px'], g['mw'], g['mx'], g['ox']) and within(g['ph'], g['py'], g['mh'], g['my'], g['oy'])):
        (c0, w), (r0, h) = window(case, True)
        res['averages'] = warp(case, p, pan_t, ms_t * Affine.translation(c0, r0), (h, w), pan_crs, ms_crs, 'average', [case['panindex']])[0]
    return res


def within(pn, p, mn, m, o):
    """Every MS pixel of the common interval is a whole number of pan pixels."""
    lo, hi = max(0, o), min(pn * p, o + mn * m)
    return m % p == 0 and o % p == 0 and (lo - o) % m == 0 and (hi - o) % m == 0


def window(case, ms=False):
    g = case['g']

    def axis(pn, p, mn, m, o):
        lo, hi = max(0, o), min(pn * p, o + mn * m)
        if ms:
            return (lo - o) // m, -(-(hi - o) // m) - (lo - o) // m
        return lo // p, -(-hi // p) - lo // p

    return axis(g['pw'], g['px'], g['mw'], g['mx'], g['ox']), axis(g['ph'], g['py'], g['mh'], g['my'], g['oy'])


def drive(case, tmp):
    import fsspec
    import rasterio as rio
    from orthority.pan_sharp import PanSharpen

    warnings.simplefilter('ignore')
    d = tmp / 'in'
    d.mkdir()
    p, m = build(case, d)
    out = tmp / 'out' / 'sharp.tif'
    out.parent.mkdir()
    kw = dict(interp=case['interp'], driver=case['driver'])
    if case['compress'] != 'none':
        kw['compress'] = case['compress']
    if case['bands']:
        kw['ms_indexes'] = case['bands']
    if case['weights']:
        kw['weights'] = [float(w) for w in case['weights']]
    if case['outtype'] != 'none':
        kw['dtype'] = case['outtype']
    if case['writemask'] != 'none':
        kw['write_mask'] = case['writemask'] == 'true'
    if case['options'] == 'tiles16':
        kw['creation_options'] = dict(tiled=True, blockxsize=16, blockysize=16, compress='deflate') if case['driver'] == 'gtiff' else dict(blocksize=128, compress='deflate')
    res = dict(outcome='ok', error='', created=False)
    with ExitStack() as st:
        pf, mf = p, m
        if case['files'] == 'dataset':
            pf, mf = st.enter_context(rio.open(p)), st.enter_context(rio.open(m))
        elif case['files'] == 'openfile':
            pf, mf = fsspec.open(str(p), 'rb'), fsspec.open(str(m), 'rb')
        try:
            sharpen = PanSharpen(pf, mf)
            if case.get('before'):
                # the object has been used with other parameters
                sharpen.process(out.parent / 'before.tif', pan_index=case['panbands'], ms_indexes=[case['nb'], 1], weights=[0.25, 0.75], interp='bilinear', dtype='float64')
            sharpen.process(out, pan_index=case['panindex'], **kw)
        except Exception as ex:
            res.update(error=type(ex).__name__, message=str(ex)[:300], created=out.exists())
            from orthority.errors import OrthorityError

            res['orthority'] = isinstance(ex, OrthorityError)
            if case['reject'] == 'none':
                res.update(environment(case, p, m))
            return res
    with rio.open(m) as ds:
        res['mscolours'] = [c.name for c in ds.colorinterp][: case['nb']]
    with rio.open(out) as ds:
        t = ds.transform
        res.update(created=True, shape=[ds.count, ds.height, ds.width], transform=[t.a, -t.e, t.c, t.f], dtype=ds.dtypes[0], nodata=ds.nodata, colours=[c.name for c in ds.colorinterp])
        res['straight'] = t.b == 0 and t.d == 0
        if case['georef'] == 'none':
            res['crs'] = ds.crs is None
        else:
            res['crs'] = ds.crs is not None and ds.crs == rio.CRS.from_string(PAN_CRS)
        res['valid'] = (ds.dataset_mask() > 0).astype(int).tolist()
        res['values'] = ds.read().astype('float64').tolist()
    res.update(environment(case, p, m))
    return res
