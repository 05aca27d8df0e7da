"""C16: EXIF and XMP tags give the documented camera parameters or an error."""
import warnings

import numpy as np

import world

NS = dict(dji='http://www.dji.com/drone-dji/1.0/', sensefly='http://ns.sensefly.com/Camera/1.0/', pix4d='http://pix4d.com/camera/1.0/')
KEYS = dict(
    dji=['GimbalRollDegree', 'GimbalPitchDegree', 'GimbalYawDegree'], sensefly=['Roll', 'Pitch', 'Yaw'], pix4d=['Roll', 'Pitch', 'Yaw'],
    xlla=['GpsLatitude', 'GpsLongtitude', 'AbsoluteAltitude'],
)  # fmt: skip


def xmp(t):
    items = []
    for grp in ('dji', 'sensefly', 'pix4d', 'xlla'):
        items += [('dji' if grp == 'xlla' else grp, k, v) for k, v in zip(KEYS[grp], t[grp]) if v != '']
    if t['dewarp']:
        items.append(('dji', 'DewarpData', ('2022-06-08;' if t['dewarpdate'] else '') + ','.join(t['dewarp'])))
    if not items:
        return None
    names = {k: f'n{i}' if t['style'] == 'prefix' else k for i, k in enumerate(NS)}
    att, ele = [], []
    for i, (ns, k, v) in enumerate(items):
        if t['style'] == 'element' or t['style'] == 'mixed' and i % 2:
            ele.append(f'<{names[ns]}:{k}>{v}</{names[ns]}:{k}>')
        else:
            att.append(f'{names[ns]}:{k}="{v}"')
    decl = ' '.join(f'xmlns:{names[k]}="{v}"' for k, v in NS.items())
    return (
        '<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9d"?>' * (t['style'] == 'mixed')
        + '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
        + f'<rdf:Description {decl} {" ".join(att)}>{"".join(ele)}</rdf:Description></rdf:RDF></x:xmpmeta>'
    )


def tags(t):
    out = dict(EXIF_Make=t['make'], EXIF_Model=t['model'], EXIF_BodySerialNumber=t['serial'], EXIF_Orientation=t['orientation'], EXIF_GPSAltitudeRef=t['altref'])
    out.update(EXIF_GPSLatitudeRef=t['latref'], EXIF_GPSLongitudeRef=t['lonref'], EXIF_FocalPlaneResolutionUnit=t['unit'], EXIF_FocalLengthIn35mmFilm=t['f35'])
    out.update(EXIF_PixelXDimension=t['tagw'], EXIF_PixelYDimension=t['tagh'])
    for k, v in dict(EXIF_FocalLength='focal', EXIF_FocalPlaneXResolution='xres', EXIF_FocalPlaneYResolution='yres', EXIF_GPSAltitude='alt').items():
        out[k] = f'({t[v]})' if t[v] != '' else ''
    for k in ('lat', 'lon'):
        out[dict(lat='EXIF_GPSLatitude', lon='EXIF_GPSLongitude')[k]] = ' '.join(f'({x})' for x in t[k])
    return {k: v for k, v in out.items() if v != ''}


def image(path, t):
    import rasterio as rio

    w, h = map(int, t['size'])
    a = world.texture((1, h, w))
    with rio.open(path, 'w', driver='GTiff', width=w, height=h, count=1, dtype='uint8') as im:
        im.write(a)
        if t['ns'] == 'split':
            names = sorted(tags(t))
            im.update_tags(**{k: tags(t)[k] for k in names[::2]})
            im.update_tags(ns='EXIF', **{k: tags(t)[k] for k in names[1::2]})
        else:
            im.update_tags(ns='EXIF' if t['ns'].startswith('exif') else None, **tags(t))
        if t['ns'].endswith('other'):
            im.update_tags(SOFTWARE='Some software', TIFFTAG_IMAGEDESCRIPTION='default')
        x = xmp(t)
        if x:
            im.update_tags(ns='xml:XMP', **{'xml:XMP': x})
    return path


def flat(v):
    return [repr(float(x)) for x in (v if isinstance(v, (tuple, list)) else [v])]


def interior(p):
    dist = [p[k] for k in ('k1', 'k2', 'p1', 'p2', 'k3')] if p['cam_type'].value == 'brown' else []
    other = set(p) - {'cam_type', 'im_size', 'focal_len', 'sensor_size', 'cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3'}
    return dict(
        type=p['cam_type'].value if not other else f'{other}', size=flat(p['im_size']), focal=flat(p['focal_len']), sensor=flat(p['sensor_size']) if 'sensor_size' in p else [],
        c=flat((p.get('cx', 0.0), p.get('cy', 0.0))), dist=flat(dist),
    )  # fmt: skip


def drive(case, tmp):
    from orthority import param_io
    from orthority.camera import create_camera
    from orthority.factory import FrameCameras

    warnings.simplefilter('ignore')
    files = [image(tmp / f'im{k}.tif', t) for k, t in enumerate(case['images'])]
    out = dict(outcome='ok', alone=[], int='', ext='', images=[], order=[], code=0, all=dict(error='', code=0, projects=True))
    for f in files:
        try:
            r = param_io.read_exif_int_param(f)
            assert len(r) == 1
            out['alone'].append(dict(interior(list(r.values())[0]), error=''))
        except Exception as ex:
            out['alone'].append(dict(error=type(ex).__name__, message=str(ex)[:200]))
    # the reader with a CRS: the zone of the first image
    t = case['images'][0]
    try:
        if all(t['xlla']):
            lat, lon = float(t['xlla'][0]), float(t['xlla'][1])
        else:
            lat, lon = float(t['lat'][0]) * (1 if t['latref'] == 'N' else -1), float(t['lon'][0]) * (1 if t['lonref'] == 'E' else -1)
    except (ValueError, IndexError):
        lat, lon = -34.0, 20.0
    out['code'] = code = (32600 if lat >= 0 else 32700) + int((lon + 180) // 6) % 60 + 1
    ints = exts = {}
    try:
        reader = param_io.ExifReader(files, crs=f'EPSG:{code}')
        for k, func in (('int', reader.read_int_param), ('ext', reader.read_ext_param)):
            try:
                r = func()
                if k == 'int':
                    ints = r
                else:
                    exts = r
            except Exception as ex:
                out[k] = type(ex).__name__
    except Exception as ex:
        out['int'] = out['ext'] = type(ex).__name__
        out['message'] = str(ex)[:200]
    names = list(exts)
    out['order'] = [names.index(f.name) + 1 if f.name in names else 0 for f in files]
    for f in files:
        e = exts.get(f.name)
        res = dict(found=False)
        if e is not None:
            res.update(xyz=flat(e['xyz']), opk=flat(e['opk']))
            if e['camera'] in ints:
                res.update(interior(ints[e['camera']]), found=True)
        out['images'].append(res)
    try:
        cams = FrameCameras.from_images(files)
        out['all']['code'] = cams.crs.to_epsg()
        for f in files:
            e = param_io.ExifReader([f], crs=cams.crs).read_ext_param()[f.name]
            (p,) = param_io.read_exif_int_param(f).values()
            ref = create_camera(xyz=e['xyz'], opk=e['opk'], **p)
            w = np.array(e['xyz']).reshape(3, 1) + np.array([[1.0, -2.0, -50.0], [-40.0, 30.0, -60.0], [60.0, 0.0, 20.0]]).T
            a, b = cams.get(f).world_to_pixel(w), ref.world_to_pixel(w)
            out['all']['projects'] &= bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)) and tuple(cams.get(f).im_size) == tuple(ref.im_size)
    except Exception as ex:
        out['all']['error'] = type(ex).__name__
        out['all']['message'] = str(ex)[:200]
    return out


def main(c):
    cases = c.generate('C16Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C16Trace', runs, cfg='CONSTANT Failing <- C16Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['obs'].get('all', {}).get('error') == ''}
    c.level = 'exploration'
    c.rule = 'every presence / absence combination of the tags of C16Gen.tla; Exif.tla gives the parameters or the error'
    c.assumptions.append('images are TIFF files with the tags in the default or the EXIF domain, as GDAL presents them')
