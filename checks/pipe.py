"""Small ortho and pan-sharpening runs with a known number of tiles, for the checks on the thread pipeline."""
import warnings
import zlib

import numpy as np
import rasterio as rio
from rasterio.transform import from_origin

CRS = 'EPSG:32735'


def write(path, a, res, x0=300000.0, y0=6200000.0, nodata=None, **kw):
    a = np.atleast_3d(a) if a.ndim == 2 else a
    if a.ndim == 3 and a.shape[2] == 1 and a.shape[0] > 1:
        a = a.transpose(2, 0, 1)
    with rio.open(
        path, 'w', driver='GTiff', count=a.shape[0], height=a.shape[1], width=a.shape[2], dtype=a.dtype, crs=CRS,
        transform=from_origin(x0, y0, res, res), nodata=nodata, **kw,
    ) as im:  # fmt: skip
        im.write(a)
    return path


def texture(shape, dtype, seed):
    rng = np.random.default_rng(seed)
    return rng.integers(20, 220, shape).astype(dtype)


def ortho_files(case, tmp):
    """Source of 60 x 40 pixels of 2 m; ortho pixels of 2.5 m."""
    src = tmp / 'src.tif'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = texture((case['bands'], 40, 60), case.get('dtype', 'uint8'), 3)
        with rio.open(src, 'w', driver='GTiff', count=a.shape[0], height=40, width=60, dtype=a.dtype) as im:
            im.write(a)
    c, r = np.meshgrid(np.arange(80), np.arange(60))
    dem = write(tmp / 'dem.tif', (100 + 0.05 * c + 0.1 * r).astype('float32'), 2.5, 299900.0, 6200075.0)
    return src, dem


def ortho_camera(case):
    from orthority.camera import create_camera

    kw = dict(distort=False, k1=-0.05) if case.get('cam') == 'brown' else {}
    return create_camera(
        case.get('cam', 'pinhole'), im_size=(60, 40), focal_len=25.0, sensor_size=(30.0, 20.0),
        xyz=(300000.0, 6200000.0, 200.0), opk=(0.02, -0.03, 0.1), **kw,
    )  # fmt: skip


def ortho_call(case, files, out):
    from orthority.ortho import Ortho

    src, dem = files
    cam = ortho_camera(case)

    def func():
        tile = case.get('tile', [32, 16])
        opts = dict(tiled=True, blockxsize=tile[0], blockysize=tile[1])
        if case.get('driver') == 'cog':
            opts = dict(blocksize=128)
        Ortho(src, dem, cam, crs=CRS).process(
            out, resolution=(2.5, 2.5), per_band=case['kind'] == 'perband', write_mask=case['masked'],
            build_ovw=case['ovw'], creation_options=opts, driver=case.get('driver', 'gtiff'), overwrite=True,
        )  # fmt: skip

    return func


def pan_files(case, tmp):
    if case['stat_tiles'] > 1:
        w = 1024 * (case['stat_tiles'] - 1) + 40
        ms = texture((case['bands'], 6, w), 'float32', 5)
        pan = ms.mean(axis=0, keepdims=True) + texture((1, 6, w), 'float32', 6) * 0.2
        rp, rm = 1.0, 1.0
        # different statistics in each part
        ms[:, :, 1024:] *= 2
        pan[:, :, 1024:] += 300
    else:
        ms = texture((case['bands'], 12, 16), 'float32', 5)
        pan = texture((1, 48, 64), 'float32', 6)
        rp, rm = 1.0, 4.0
    ms[:, :1, :2] = -999
    pan[:, -1:, -3:] = -999
    return (
        write(tmp / 'pan.tif', pan, rp, nodata=-999),
        write(tmp / 'ms.tif', ms, rm, nodata=-999),
    )


def pan_call(case, files, out):
    from orthority.pan_sharp import PanSharpen

    pan, ms = files

    def func():
        tile = case.get('tile') or ([1024, 16] if case['stat_tiles'] > 1 else [32, 16])
        opts = dict(tiled=True, blockxsize=tile[0], blockysize=tile[1])
        if case.get('same'):
            # the pan and multispectral bands are in one open dataset
            with rio.open(ms) as ds:
                PanSharpen(ds, ds).process(
                    out, pan_index=1, ms_indexes=[1, 2], write_mask=case['masked'], build_ovw=case['ovw'],
                    creation_options=opts, overwrite=True,
                )  # fmt: skip
            return
        PanSharpen(pan, ms).process(
            out, write_mask=case['masked'], build_ovw=case['ovw'], creation_options=opts, overwrite=True,
            weights=case.get('weights'), dtype=case.get('dtype'),
        )  # fmt: skip

    return func


def content(path):
    """Image content: checksums by band, of the mask, and the values."""
    with warnings.catch_warnings(), rio.open(path) as im:
        warnings.simplefilter('ignore')
        a = im.read()
        m = im.dataset_mask()
        ov = [im.overviews(b) for b in im.indexes]
    return (
        [f'{zlib.crc32(np.ascontiguousarray(b).tobytes()):08x}' for b in a] + [str(a.shape), str(ov)],
        f'{zlib.crc32(np.ascontiguousarray(m).tobytes()):08x}',
        a,
    )
