"""Orthos and pan-sharpened images with given output settings, described for Profile.tla."""
import os
import warnings
import zlib
from contextlib import ExitStack

import numpy as np
import rasterio as rio
from rasterio.transform import from_origin

import world
from world import CRS, X0, Y0

WILD = [
    -1e6, -65536.4, -40000.25, -32768.6, -32767.4, -300.0, -1.4, -0.6, -0.3, 0.0, 0.3, 0.7, 1.2, 2.6, 77.4, 127.8, 128.1, 200.3,
    254.4, 254.7, 255.4, 255.7, 256.2, 300.0, 1023.6, 4095.4, 32766.6, 32767.3, 32768.7, 40000.3, 65534.4, 65534.8, 65535.3,
    65536.1, 70000.7, 1e6,
]  # fmt: skip


def smooth(shape, dtype, lo=80, hi=160, tex=True):
    b, h, w = shape
    k, i, j = np.meshgrid(np.arange(b), np.arange(h), np.arange(w), indexing='ij')
    a = (lo + hi) / 2 + (hi - lo) / 2 * np.sin(0.31 * j + 0.9 * k) * np.cos(0.27 * i - 0.4 * k)
    return np.round(a).astype(dtype) if np.dtype(dtype).kind in 'iu' else (a + 0.125 * ((i + j) % 7)).astype(dtype)


def wild(shape, dtype):
    b, h, w = shape
    k, i, j = np.meshgrid(np.arange(b), np.arange(h), np.arange(w), indexing='ij')
    v = np.array(WILD)
    if np.dtype(dtype).kind in 'iu':
        ii = np.iinfo(dtype)
        v = np.clip(np.round(v), ii.min, ii.max)
    a = v[(j + 5 * i + 11 * k) % len(v)].astype(dtype)
    return a


def source_array(c, shape):
    return {'smooth': smooth, 'wild': wild}[c.get('values', 'smooth')](shape, c.get('sdtype', 'uint8'))


SIZE = (76, 52)  # width, height of the source


def camera(c):
    from orthority.camera import create_camera

    kind = c.get('cam', 'pinhole')
    if kind == 'rpc':
        r = world.rpc(0)
        r.samp_off, r.samp_scale, r.line_off, r.line_scale = 38.0, 38.0, 26.0, 26.0
        return create_camera('rpc', im_size=SIZE, rpc=r, crs=CRS)
    par = dict(
        pinhole={}, brown=dict(k1=-0.05, k2=0.01, p1=0.001, p2=-0.002, k3=0.003, cx=0.01, cy=-0.02),
        opencv=dict(k1=-0.04, k2=0.01, p1=0.001, k4=0.002, s1=0.001), fisheye=dict(k1=-0.02, k2=0.003),
    )[kind]  # fmt: skip
    if kind != 'pinhole':
        par['distort'] = not c.get('undistort', False)
    return create_camera(
        kind, im_size=SIZE, focal_len=25.0, sensor_size=(30.0, 20.5), xyz=(X0, Y0, 200.0), opk=(0.12, -0.09, c.get('kappa', 4) / 10), **par,
    )  # fmt: skip


ENC = dict(
    strip=dict(), tiled=dict(tiled=True, blockxsize=16, blockysize=32, compress='lzw'), band=dict(interleave='band', compress='deflate'),
    pixel=dict(interleave='pixel', blockysize=5), bigendian=dict(ENDIANNESS='BIG'), deflate=dict(compress='deflate', predictor=2, zlevel=9),
)


# without this, GDAL takes the last of 2 or 4 bands for alpha
INTERP = {1: ['gray'], 2: ['gray', 'undefined'], 3: ['red', 'green', 'blue'], 4: ['red', 'green', 'blue', 'undefined'], 5: ['gray'] + ['undefined'] * 4}


def write_bands(path, a, ci=None, **kw):
    from rasterio.enums import ColorInterp

    ci = ci or INTERP[a.shape[0]]
    world.write_image(path, a, photometric='rgb' if ci[:3] == ['red', 'green', 'blue'] else 'minisblack', alpha='no', **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'r+') as im:
            im.colorinterp = [ColorInterp[k] for k in ci]
    return path


def write_src(c, path):
    a = source_array(c, (c.get('bands', 3), SIZE[1], SIZE[0]))
    kw = dict(ENC[c.get('src_enc', 'strip')])
    if c.get('src_enc') == 'deflate' and a.dtype.kind == 'f':
        kw['predictor'] = 3
    return write_bands(path, a, c.get('colorinterp'), **kw)


def write_dem(c, path):
    n = 60
    cc, rr = np.meshgrid(np.arange(n + 10), np.arange(n))
    z = (100 + 0.3 * cc + 2 * np.sin(rr / 5)).astype('float32')
    if c.get('hole', True):
        z[20:26, 30:37] = -9999.0
    kw = dict(ENC[c.get('dem_enc', 'strip')])
    if c.get('dem_enc') == 'deflate':
        kw['predictor'] = 3
    a = np.array([z])
    return world.write_image(path, a, crs=CRS, transform=from_origin(X0 - 110.0, Y0 + 90.0, 3.0, 3.0), nodata=-9999.0, **kw)


def handle(path, kind, stack):
    """The same file, supplied in another way."""
    if kind == 'str':
        return str(path)
    if kind == 'path':
        return path
    if kind == 'uri':
        return path.as_uri()
    if kind == 'rel':
        return os.path.relpath(path)
    if kind == 'openfile':
        import fsspec

        return fsspec.open(str(path), 'rb')
    if kind == 'dataset':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return stack.enter_context(rio.open(path))
    if kind == 'memory':
        import fsspec

        of = fsspec.open(f'memory://{path.name}', 'wb')
        with of as f:
            f.write(path.read_bytes())
        return fsspec.open(f'memory://{path.name}', 'rb')
    raise ValueError(kind)


def opt(v):
    """TLC writes 'auto' for an option that is left to its default."""
    return None if v == 'auto' else v


def copts(c):
    o = c.get('copts')
    if not o:
        return None
    return {k: v for k, v in o.items()}


def out_args(c):
    kw = dict(
        write_mask={'auto': None, 'yes': True, 'no': False}[c.get('mask', 'auto')], compress=opt(c.get('compress', 'auto')),
        build_ovw=c.get('ovw', True), creation_options=copts(c), driver=c.get('driver', 'gtiff'),
        progress=dict(disable=False, leave=False, file=open(os.devnull, 'w')) if c.get('progress') else False,
    )  # fmt: skip
    if c.get('enums'):
        from orthority.enums import Compress, Driver

        kw['driver'] = Driver(kw['driver'])
        if kw['compress']:
            kw['compress'] = Compress(kw['compress'])
    return kw


def run_ortho(c, tmp, out):
    from orthority.ortho import Ortho

    src, dem = write_src(c, tmp / 'src.tif'), write_dem(c, tmp / 'dem.tif')
    with ExitStack() as st:
        s, d = handle(src, c.get('src_as', 'path'), st), handle(dem, c.get('dem_as', 'path'), st)
        o = Ortho(s, d, camera(c), crs=CRS)
        kw = out_args(c)
        kw.update(
            resolution=(c['res'] / 10, c['res'] / 10 * {0: 0.3}.get(c.get('aspect', 1), c.get('aspect', 1))) if c.get('res') else (1.0, 1.0), interp=c.get('interp', 'cubic'),
            dem_interp=c.get('dem_interp', 'cubic'), per_band=c.get('per_band', False), dtype=opt(c.get('dtype', 'auto')),
        )  # fmt: skip
        o.process(out, **kw)


PAN_TYPE = dict(uint8='uint16', uint16='float32', int16='uint8', float32='int16', float64='uint16')


def run_pan(c, tmp, out):
    from orthority.pan_sharp import PanSharpen

    w, h = c.get('size', [80, 64])
    dt = c.get('sdtype', 'uint8')
    nd = dict(uint8=0, uint16=0, int16=-32768).get(dt, float('nan'))
    b = c.get('bands', 3)
    k = c.get('scale', 4)
    pnd = nd
    mw, mh = max(-(-w // k), 2), max(-(-h // k), 2)
    if c.get('values') == 'wild':
        a = wild((1, mh, mw), dt)
        ms = np.repeat(a, b, axis=0)
        pan = np.kron(a, np.ones((1, k, k), dt))[:, :h, :w]
    else:
        pdt = PAN_TYPE.get(dt, dt)  # the output type is not the pan type
        pnd = dict(uint8=0, uint16=0, int16=-32768).get(pdt, float('nan'))
        ms, pan = smooth((b, mh, mw), dt), smooth((1, h, w), pdt, 90, 150)
        if c.get('hole', True):
            ms[:, :2, :3] = nd
            pan[:, -5:, -9:-2] = pnd
            pan[:, 20:23, 7:30] = pnd
    p, m = tmp / 'pan.tif', tmp / 'ms.tif'
    world.write_image(p, pan, crs=CRS, transform=from_origin(X0, Y0, 1.0, 1.0), nodata=pnd)
    write_bands(m, ms, crs=CRS, transform=from_origin(X0, Y0, float(k), float(k)), nodata=nd)
    kw = out_args(c)
    PanSharpen(p, m).process(
        out, weights=c.get('weights') or [1.0] * b, interp=c.get('interp', 'cubic'), dtype=opt(c.get('dtype', 'auto')), **kw
    )


def crc(a):
    return f'{zlib.crc32(np.ascontiguousarray(a).tobytes()):08x}'


def describe(path, tmp):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as im:
            a = im.read()
            masks = im.read_masks() > 0
            ds = im.dataset_mask() > 0
            st = im.tags(ns='IMAGE_STRUCTURE')
            nod = im.nodata
            d = dict(
                driver=im.driver, cog=st.get('LAYOUT', '') == 'COG', dtype=sorted(set(im.dtypes)), count=im.count, size=[im.width, im.height],
                compress=st.get('COMPRESSION', 'NONE'), photometric=im.photometric.name if im.photometric else 'none',
                blocks=[list(s) for s in sorted(set(im.block_shapes))], nodata=[] if nod is None else ['nan' if np.isnan(nod) else int(nod)],
                interleave=st.get('INTERLEAVE', ''),
                flags=sorted({'+'.join(sorted(f.name for f in fl)) for fl in im.mask_flag_enums}), ovw=[list(im.overviews(b)) for b in im.indexes],
                colorinterp=[k.name for k in im.colorinterp], crs=im.crs.to_epsg() if im.crs else 0, transform=list(im.transform)[:6],
                nbits=st.get('NBITS', ''),
            )  # fmt: skip
    d['sidecars'] = sorted(p.name for p in path.parent.iterdir() if p.name.startswith(path.name) and p.suffix in ('.msk', '.ovr'))
    inv = ~ds
    d['valid'] = crc(np.packbits(ds))
    d['n_valid'], d['n_invalid'] = int(ds.sum()), int(inv.sum())
    d['bands_same'] = bool((masks == masks[:1]).all() and (masks[0] == ds).all())
    if nod is not None:
        iv = a[:, inv]
        d['invalid_hold'] = bool(np.all(np.isnan(iv)) if np.isnan(nod) else np.all(iv == nod))
        d['valid_differ'] = bool((~(np.isnan(a[:, ds]) if np.isnan(nod) else a[:, ds] == nod)).all())
    else:
        d['invalid_hold'] = d['valid_differ'] = True
    a[:, inv] = 0
    d['values'] = [crc(b) for b in a]
    return d, a, masks


def attempt(c, tmp, name='out.tif'):
    """dict(outcome, ...), array, band masks"""
    from orthority.errors import OrthorityError

    out = tmp / name
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            {'ortho': run_ortho, 'pan': run_pan}[c.get('kind', 'ortho')](c, tmp, out)
    except Exception as ex:
        return dict(outcome='error', error=f'{type(ex).__name__}: {ex}'[:200], orthority_error=isinstance(ex, OrthorityError)), None, None
    d, a, m = describe(out, tmp)
    return dict(outcome='ok', **d), a, m
