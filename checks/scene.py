"""Builds the scenes of OrthoCases.tla as files, and runs orthority on them."""
import warnings
from pathlib import Path

import numpy as np
import rasterio as rio
from rasterio.crs import CRS
from rasterio.transform import from_origin
from rasterio.warp import transform

import camlib
from vf import num


def src_array(s):
    w, h = s['cam']['size'] if s['kind'] == 'frame' else s['size']
    j, i = np.meshgrid(np.arange(w), np.arange(h))
    out = []
    for b in range(1, s['bands'] + 1):
        if s['src'] == 'affine':
            v = {1: 100 + 2 * j, 2: 90 + 2 * i, 0: 60 + j + i + b}[b % 3]
        else:
            v = 20 + 7 * ((5 * j + 11 * i + 3 * b) % 31)
        out.append(v)
    return np.array(out).astype(s['dtype'])


def write_src(s, path, **kwargs):
    a = src_array(s)
    prof = dict(driver='GTiff', count=a.shape[0], height=a.shape[1], width=a.shape[2], dtype=a.dtype)
    prof.update(kwargs)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', **prof) as im:
            im.write(a)
    return path


def dem_crs(s):
    return s['world'] if s['dem']['crs'] == 'world' else s['dem']['crs']


def dem_array(d):
    x0, y0, rx, ry = (num(d[k]) for k in ('x0', 'y0', 'rx', 'ry'))
    c, r = np.meshgrid(np.arange(d['nx']), np.arange(d['ny']))
    if d['kind'] == 'cells':
        z = num(d['z0']) + 3 * ((7 * c + 11 * r) % 4)
    else:
        x, y = x0 + (c + 0.5) * rx, y0 - (r + 0.5) * ry
        z = num(d['z0']) + num(d['ax']) * (x - num(d['cx'])) + num(d['ay']) * (y - num(d['cy']))
    return z.astype('float64')


def write_dem(s, path, mutate=None):
    d = s['dem']
    z = dem_array(d)
    nodata = num(d['nodata'])
    if d['hole']:
        c0, r0, nc, nr = d['hole']
        z[r0 : r0 + nr, c0 : c0 + nc] = nodata
    if mutate is not None:
        z = mutate(z)
    bands = s.get('dem_band', 1)
    prof = dict(
        driver='GTiff', count=max(bands, 1), height=d['ny'], width=d['nx'], dtype=d['dtype'], nodata=nodata,
        crs=CRS.from_string(dem_crs(s)), transform=from_origin(num(d['x0']), num(d['y0']), num(d['rx']), num(d['ry'])),
    )  # fmt: skip
    with rio.open(path, 'w', **prof) as im:
        for b in range(1, bands + 1):
            # other bands are decoys
            im.write((z if b == bands else z * 0 - 77.0).astype(d['dtype']), b)
    return path


def make_camera(s):
    if s['kind'] == 'rpc':
        return camlib.make_rpc(s['rpc'], s['size'], s['world'])
    return camlib.make_frame(s['cam'])


def creation(s):
    t = s['tile']
    if not t:
        return None
    if s.get('driver', 'gtiff') == 'cog':
        return dict(blocksize=t, overviews='none', compress='deflate')
    if isinstance(t, list):
        return dict(tiled=True, blockxsize=t[0], blockysize=t[1])
    if t == 'strip':
        return dict(tiled=False, blockysize=7)
    return dict(tiled=True, blockxsize=t, blockysize=t)


def process(s, tmp, **over):
    """Run Ortho on the scene; returns dict(outcome, ...) with the ortho's path."""
    from orthority.errors import OrthorityError, OrthorityWarning
    from orthority.ortho import Ortho

    src = write_src(s, tmp / 'src.tif')
    dem = write_dem(s, tmp / 'dem.tif', mutate=over.pop('mutate', None))
    out = tmp / 'ortho.tif'
    cam = make_camera(s)
    kw = dict(
        resolution=tuple(num(v) for v in s['res']) if s['res'] else None, interp=s['interp'], dem_interp=s['dem_interp'],
        per_band=s['per_band'], build_ovw=False, creation_options=creation(s), driver=s.get('driver', 'gtiff'), write_mask=s.get('mask', False),
        overwrite=True,
    )  # fmt: skip
    kw.update(over)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            ortho = Ortho(src, dem, cam, crs=s['world'], dem_band=s.get('ask_band', s.get('dem_band', 1)))
            for how in s.get('before', []):
                used(ortho, s, tmp / f'before_{how}.tif', how)
            del ws[:]
            ortho.process(out, **kw)
            res = dict(outcome='ok', path=out)
        except Exception as ex:
            res = dict(
                outcome='error', error=f'{type(ex).__name__}: {ex}', orthority_error=isinstance(ex, OrthorityError)
            )
    res['warned'] = any(issubclass(w.category, OrthorityWarning) for w in ws)
    res['warnings'] = [str(w.message)[:100] for w in ws][:5]
    return res


def used(ortho, s, out, how):
    """Earlier uses of an Ortho object."""
    d = s['dem']
    res = dict(dem=(num(d['rx']), num(d['ry'])), coarse=(11.0, 9.0), fine=(1.5, 1.0)).get(how)
    kw = dict(resolution=res, interp='bilinear', dem_interp='nearest', per_band=how == 'perband', dtype='float32', write_mask=False)
    try:
        ortho.process(out, **(dict(kw, interp='none such') if how == 'fail' else kw))
    except Exception:
        if how != 'fail':
            raise


def points(s, path, n, seed, border=6):
    """Random pixel positions of the ortho's grid, more of them along tile and image edges, and beyond its extent."""
    with rio.open(path) as im:
        H, W = im.shape
    rng = np.random.default_rng(seed)
    m = n * 3 // 4
    c = rng.integers(0, W, m)
    r = rng.integers(0, H, m)
    t_ = s['tile'] if isinstance(s['tile'], int) and s['tile'] else 16
    k = n // 8
    c2 = np.clip(rng.integers(0, max(1, W // t_) + 1, k) * t_ + rng.integers(-1, 1, k), 0, W - 1)
    r2 = rng.integers(0, H, k)
    c3, r3 = rng.integers(-border, W + border, k), rng.integers(-border, H + border, k)
    cs = np.concatenate([c, c2, c3, [0, W - 1, 0, W - 1]])
    rs = np.concatenate([r, r2, r3, [0, 0, H - 1, H - 1]])
    return points_at(s, path, zip(cs.tolist(), rs.tolist()))


def points_at(s, path, ji):
    """
    Observed ground points: pixel centres of the ortho's grid.  For each: world coordinates, DEM coordinates
    and vertical conversion, geographic coordinates (RPC), validity, values.
    """
    with warnings.catch_warnings(), rio.open(path) as im:
        warnings.simplefilter('ignore')
        a = im.read()
        mask = im.dataset_mask() > 0
        bmask = (im.read_masks() > 0).all(axis=0)
        t = im.transform
        meta = dict(
            transform=[t.a, t.b, t.c, t.d, t.e, t.f], width=im.width, height=im.height, count=im.count,
            crs_ok=bool(im.crs == CRS.from_string(s['world'])), dtype=im.dtypes[0],
        )  # fmt: skip
        H, W = im.shape
    ji = sorted(set(ji))
    cs, rs = np.array(ji).T
    xs = t.c + (cs + 0.5) * t.a
    ys = t.f + (rs + 0.5) * t.e
    world, dcrs = CRS.from_string(s['world']), CRS.from_string(dem_crs(s))
    z0 = num(s['dem']['z0'])
    if world == dcrs:
        dx, dy, kz, kd = xs, ys, np.ones(len(xs)), np.zeros(len(xs))
    else:
        dx, dy, _ = transform(world, dcrs, xs, ys, np.full(len(xs), z0))
        za = np.array(transform(dcrs, world, dx, dy, np.full(len(xs), z0))[2])
        zb = np.array(transform(dcrs, world, dx, dy, np.full(len(xs), z0 + 1.0))[2])
        kz = zb - za
        kd = za - kz * z0
    gx, gy = xs, ys
    if s['kind'] == 'rpc':
        gx, gy = transform(world, 'EPSG:4979', xs, ys, np.full(len(xs), z0))[:2]
    pts = []
    for k in range(len(cs)):
        inside = 0 <= cs[k] < W and 0 <= rs[k] < H
        pts.append(dict(
            c=int(cs[k]), r=int(rs[k]), x=float(xs[k]), y=float(ys[k]), dx=float(dx[k]), dy=float(dy[k]), kz=float(kz[k]),
            kd=float(kd[k]), gx=float(gx[k]), gy=float(gy[k]), inside=inside,
            valid=bool(inside and mask[rs[k], cs[k]] and bmask[rs[k], cs[k]]),
            v=[float(x) for x in a[:, rs[k], cs[k]]] if inside else [],
        ))  # fmt: skip
    return meta, pts
