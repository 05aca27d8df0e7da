"""A small world: a DEM and any number of images of it, described in each of the formats that orthority reads."""
import json
import warnings

import numpy as np
import rasterio as rio
import yaml
from rasterio.control import GroundControlPoint
from rasterio.rpc import RPC
from rasterio.transform import from_origin
from rasterio.warp import transform

CRS = 'EPSG:32735'
LLA = 'EPSG:4979'
X0, Y0 = 300000.0, 6200000.0


def texture(shape, dtype='uint8', seed=3):
    return np.random.default_rng(seed).integers(20, 220, shape).astype(dtype)


def write_image(path, a, tags=None, xmp=None, **prof):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(
            path, 'w', **dict(dict(driver='GTiff', count=a.shape[0], height=a.shape[1], width=a.shape[2], dtype=a.dtype), **prof)
        ) as im:
            im.write(a)
            if tags:
                im.update_tags(**tags)
            if xmp:
                im.update_tags(ns='xml:XMP', **{'xml:XMP': xmp})
    return path


def dem(path, res=2.5, nx=110, ny=90, crs=CRS, x0=X0 - 125.0, y0=Y0 + 112.5, band=1, **kw):
    c, r = np.meshgrid(np.arange(nx), np.arange(ny))
    z = (100 + 0.05 * c + 0.1 * r).astype('float32')
    a = np.array([z if b == band else z * 0 - 77 for b in range(1, band + 1)])
    return write_image(path, a, crs=crs, transform=from_origin(x0, y0, res, res), nodata=-9999.0, **kw)


def pose(k):
    return (X0 + 12.0 * k, Y0 - 9.0 * k, 200.0 + 2 * k), (0.02 - 0.01 * k, -0.03 + 0.015 * k, 0.1 + 0.7 * k)


def interior(k):
    """Camera 0 is a pinhole, camera 1 a brown and camera 2 a fisheye camera."""
    base = dict(im_size=[60, 40], focal_len=25.0, sensor_size=[30.0, 20.0])
    return [
        dict(type='pinhole', **base),
        dict(type='brown', **dict(base, focal_len=27.5), cx=0.01, cy=-0.02, k1=-0.05, k2=0.01, p1=0.001, p2=-0.002, k3=0.003),
        dict(type='fisheye', **dict(base, focal_len=22.0), k1=-0.02, k2=0.003),
    ][k % 3]


def sources(d, n, bands=3, dtype='uint8', names=None, **kw):
    return [
        write_image(d / (names[k] if names else f'im{k}.tif'), texture((bands, 40, 60), dtype, 10 + k), **kw) for k in range(n)
    ]


def frame_params(d, n, cams=1, names=None, stem=False, crs=CRS, csv=True):
    """Interior YAML; exterior CSV with a .prj file, and GeoJSON."""
    ip = d / 'int.yaml'
    ip.write_text(yaml.safe_dump({f'cam {k}': interior(k) for k in range(cams)}, sort_keys=False))
    names = names or [f'im{k}.tif' for k in range(n)]
    rows, feats = ['filename,x,y,z,omega,phi,kappa,camera'], []
    for k in range(n):
        xyz, opk = pose(k)
        name = names[k].split('.')[0] if stem else names[k]
        rows.append(','.join([name, *map(repr, xyz), *(repr(float(np.degrees(o))) for o in opk), f'cam {k % cams}']))
        feats.append(
            dict(
                type='Feature', properties=dict(filename=name, camera=f'cam {k % cams}', xyz=list(xyz), opk=list(opk)),
                geometry=dict(type='Point', coordinates=[0.0, 0.0, 0.0]),
            )  # fmt: skip
        )
    ep = d / 'ext.csv'
    ep.write_text('\n'.join(rows) + '\n')
    if crs:
        (d / 'ext.prj').write_text(crs)
    gj = d / 'ext.geojson'
    gj.write_text(json.dumps(dict(type='FeatureCollection', world_crs=crs or CRS, features=feats)))
    return ip, ep, gj


def dms(v):
    v = abs(v)
    deg = int(v)
    mi = int((v - deg) * 60)
    return f'({deg}) ({mi}) ({(v - deg - mi / 60) * 3600!r})'


def exif_tags(k, lla=None, focal=25.0):
    xyz, opk = pose(k)
    if lla is None:
        x, y, z = transform(CRS, LLA, [xyz[0]], [xyz[1]], [xyz[2]])
        lla = (y[0], x[0], z[0])
    return dict(
        EXIF_Make='Maker', EXIF_Model=f'Model {k}', EXIF_FocalLength=f'({focal})', EXIF_FocalPlaneResolutionUnit='4',
        EXIF_FocalPlaneXResolution='(2.0)', EXIF_FocalPlaneYResolution='(2.0)',
        EXIF_GPSLatitudeRef='N' if lla[0] >= 0 else 'S', EXIF_GPSLatitude=dms(lla[0]),
        EXIF_GPSLongitudeRef='E' if lla[1] >= 0 else 'W', EXIF_GPSLongitude=dms(lla[1]),
        EXIF_GPSAltitude=f'({lla[2]!r})', EXIF_GPSAltitudeRef='00',
    )  # fmt: skip


XMP = (
    '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
    '<rdf:Description xmlns:Camera="http://pix4d.com/camera/1.0/"><Camera:Roll>{}</Camera:Roll><Camera:Pitch>{}</Camera:Pitch>'
    '<Camera:Yaw>{}</Camera:Yaw></rdf:Description></rdf:RDF></x:xmpmeta>'
)


def exif_sources(d, n, bands=3, focals=None):
    return [
        write_image(
            d / f'ex{k}.tif', texture((bands, 40, 60), 'uint8', 20 + k), tags=exif_tags(k, focal=(focals or [25.0])[k % len(focals or [0])]),
            xmp=XMP.format(1.5 * k, -2.0 + k, 40.0 * k),
        )
        for k in range(n)
    ]  # fmt: skip


def rpc(k):
    x, y, z = transform(CRS, LLA, [X0 + 8 * k], [Y0 - 5 * k], [104.0])
    return RPC(
        height_off=104.0, height_scale=100.0, lat_off=y[0], lat_scale=0.0005, long_off=x[0], long_scale=0.0008, line_off=20.0,
        line_scale=20.0, samp_off=30.0, samp_scale=30.0,
        line_num_coeff=[0.0, 0.01, -1.0, 0.02, 0.001] + [0.0] * 15, line_den_coeff=[1.0, 0.0002] + [0.0] * 18,
        samp_num_coeff=[0.0, 1.0, 0.015, -0.01] + [0.0] * 16, samp_den_coeff=[1.0, 0.0, 0.0003] + [0.0] * 17,
        err_bias=None, err_rand=None,
    )  # fmt: skip


def gcps(k, off=(1.5, -0.75)):
    """GCPs of image k, of which the RPC model is wrong by an offset."""
    from orthority.camera import RpcCamera

    cam = RpcCamera((60, 40), rpc(k))
    r = rpc(k)
    out = []
    for m, (u, v, w) in enumerate([(-0.5, -0.5, 0.0), (0.5, -0.4, 0.1), (0.4, 0.5, -0.1), (-0.45, 0.55, 0.05), (0.05, 0.0, 0.0)]):
        xyz = (r.long_off + u * r.long_scale, r.lat_off + v * r.lat_scale, 104.0 + 40 * w)
        ji = cam.world_to_pixel(np.array(xyz).reshape(3, 1)).ravel() + off
        out.append(dict(ji=(float(ji[0]), float(ji[1])), xyz=xyz, id=f'g{k}{m}', info=''))
    return out


def rpc_sources(d, n, bands=2, with_gcps=True, with_rpc=True):
    out = []
    for k in range(n):
        kw = dict(rpcs=rpc(k)) if with_rpc else {}
        if with_gcps:
            kw['gcps'] = [
                GroundControlPoint(row=g['ji'][1], col=g['ji'][0], x=g['xyz'][0], y=g['xyz'][1], z=g['xyz'][2], id=g['id'], info='')
                for g in gcps(k)
            ]
            kw['crs'] = LLA
        out.append(write_image(d / f'rp{k}.tif', texture((bands, 40, 60), 'uint8', 30 + k), **kw))
    return out


def odm(d, n):
    """An OpenDroneMap dataset."""
    import cv2

    (d / 'images').mkdir(parents=True)
    (d / 'odm_dem').mkdir()
    (d / 'opensfm').mkdir()
    dem(d / 'odm_dem' / 'dsm.tif')
    sources(d / 'images', n)
    ref = dict(latitude=-34.31, longitude=24.83, altitude=50.0)
    rx, ry, rz = transform(CRS, CRS, [0], [0], [0])
    rx, ry, rz = (v[0] for v in transform('EPSG:4326', CRS, [ref['longitude']], [ref['latitude']], [ref['altitude']]))
    shots = {}
    for k in range(n):
        from orthority.param_io import _opk_to_rotation

        xyz, opk = pose(k)
        rot = _opk_to_rotation(opk).dot(np.diag([1, -1, -1])).T
        aa = cv2.Rodrigues(rot)[0].ravel()
        t = -rot.dot(np.array(xyz) - (rx, ry, rz))
        shots[f'im{k}.tif'] = dict(rotation=aa.tolist(), translation=t.tolist(), camera=f'v2 cam {k % 2}')
    cams = {
        'v2 cam 0': dict(projection_type='brown', width=60, height=40, focal_x=0.85, focal_y=0.86, c_x=0.01, c_y=0.0, k1=-0.02, k2=0.001, p1=0.0, p2=0.0, k3=0.0),
        'v2 cam 1': dict(projection_type='perspective', width=60, height=40, focal=0.83, k1=-0.03, k2=0.0),
    }  # fmt: skip
    (d / 'opensfm' / 'reconstruction.json').write_text(json.dumps([dict(cameras=cams, shots=shots, reference_lla=ref)]))
    return d


def cli(args):
    """Run oty; returns (exit code, output, exception)."""
    import logging

    from click.testing import CliRunner

    from orthority.cli import cli as main

    show = warnings.showwarning
    r = CliRunner().invoke(main, [str(a) for a in args])
    warnings.showwarning = show
    log = logging.getLogger('orthority')
    for h in list(log.handlers):
        log.removeHandler(h)
    return r.exit_code, r.output, r.exception


def footprint_ok(path):
    with rio.open(path) as im:
        return im.width, im.height, im.count
