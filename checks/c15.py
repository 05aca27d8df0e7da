"""C15: positions, orientations and world CRS resolve as documented from every source."""
import json
import warnings

import numpy as np

import world

OFFSETS = np.array([[100, 3, -5], [-100, 4, 6], [7, 100, -2], [-8, -100, 5], [2, 9, 100], [5, -3, -100]], float).T
XMP = (
    '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
    '<rdf:Description xmlns:drone-dji="http://www.dji.com/drone-dji/1.0/" drone-dji:GpsLatitude="{}" drone-dji:GpsLongtitude="{}" '
    'drone-dji:AbsoluteAltitude="{}" drone-dji:GimbalRollDegree="{}" drone-dji:GimbalPitchDegree="{}" drone-dji:GimbalYawDegree="{}"/></rdf:RDF></x:xmpmeta>'
)


def crs_of(case, kind, code):
    """The text of a CRS of a kind."""
    if kind == 'geographic':
        return 'EPSG:4326'
    if kind == 'nonsense':
        return 'not a CRS'
    if code:
        return f'EPSG:{code}'
    p = case['proj']
    return f'+proj=tmerc +lat_0=0 +lon_0={p["lon0"]} +k={p["k0"]} +x_0={p["e0"]} +y_0={p["n0"]} +datum=WGS84 +units=m +no_defs'


def as_form(text, form, kind):
    from rasterio.crs import CRS

    if kind == 'nonsense' or not text.startswith('EPSG'):
        return CRS.from_string(text) if form == 'object' and kind != 'nonsense' else text
    crs = CRS.from_string(text)
    if form == 'object':
        return crs
    if form.startswith('wkt'):
        return crs.to_wkt() + ('\n' if form.endswith('newline') else '')
    if form == 'proj4' and kind == 'projected':
        zone, south = crs.to_epsg() % 100, crs.to_epsg() > 32700
        return f'+proj=utm +zone={zone} {"+south " if south else ""}+datum=WGS84 +units=m +no_defs'
    if form == 'proj4':
        return '+proj=longlat +datum=WGS84 +no_defs'
    return text + ('\n' if form.endswith('newline') else '')


def source_files(case, d):
    """Write the source; return the exterior parameter file or images, and the interior parameter file."""
    src = case['source']
    ip = d / 'int.yaml'
    ip.write_text('cam:\n  type: pinhole\n  im_size: [60, 40]\n  focal_len: 25.0\n  sensor_size: [30.0, 20.0]\n')
    names = [f'im{k}.tif' for k in range(len(case['images']))]
    if src.startswith('csv'):
        ep = d / ''.join(case['file'])
        ep.parent.mkdir(exist_ok=True)
        pos = ['x', 'y', 'z'] if 'xyz' in src else ['latitude', 'longitude', 'altitude']
        ang = ['omega', 'phi', 'kappa'] if 'opk' in src else ['roll', 'pitch', 'yaw']
        rows = [['filename'] + pos + ang] + [[n] + im['xyz' if 'xyz' in src else 'lla'] + im['ang'] for n, im in zip(names, case['images'])]
        ep.write_text('\n'.join(','.join(r) for r in rows) + '\n')
        if case['side'] != 'none':
            (d / (case['file'][0] + '.prj')).write_text(as_form(crs_of(case, case['side'], case['sidecode']), case['sideform'], case['side']))
    elif src == 'geojson':
        ep = d / 'ext.geojson'
        feats = [
            dict(type='Feature', properties=dict(filename=n, camera=None, xyz=[float(x) for x in im['xyz']], opk=np.radians([float(a) for a in im['ang']]).tolist()),
                 geometry=dict(type='Point', coordinates=[0.0, 0.0, 0.0])) for n, im in zip(names, case['images'])
        ]  # fmt: skip
        ep.write_text(json.dumps(dict(type='FeatureCollection', world_crs=as_form(crs_of(case, case['side'], case['sidecode']), case['sideform'], case['side']), features=feats)))
    elif src == 'osfm':
        ep = d / 'reconstruction.json'
        ref = dict(zip(('latitude', 'longitude', 'altitude'), map(float, case['images'][0]['lla'])))
        shots = {n: dict(rotation=[float(a) for a in im['ang']], translation=[float(a) for a in im['t']], camera='cam') for n, im in zip(names, case['images'])}
        ep.write_text(json.dumps([dict(cameras={'cam': dict(projection_type='perspective', width=60, height=40, focal=50.0 / 60, k1=0.0, k2=0.0)}, shots=shots, reference_lla=ref)]))
    else:
        ep = []
        for n, im in zip(names, case['images']):
            roll, pitch, yaw = map(float, im['ang'])
            tags = dict(EXIF_Make='Maker', EXIF_Model='Model', EXIF_FocalLength='(25.0)', EXIF_FocalPlaneResolutionUnit='4', EXIF_FocalPlaneXResolution='(2.0)', EXIF_FocalPlaneYResolution='(2.0)')
            ep.append(world.write_image(d / n, world.texture((1, 40, 60)), tags=tags, xmp=XMP.format(*im['lla'], repr(roll), repr(pitch - 90), repr(yaw))))
    return ip, ep, names


def crs_obs(case, crs, given):
    from rasterio.crs import CRS

    if crs is None:
        return dict(none=True, code=0, isgiven=False)
    return dict(none=False, code=crs.to_epsg() or 0, isgiven=given is not None and crs == CRS.from_string(given))


def drive(case, tmp):
    import fsspec
    from orthority import param_io
    from orthority.factory import FrameCameras
    from rasterio.crs import CRS

    warnings.simplefilter('ignore')
    src = case['source']
    d = tmp / 'in'
    d.mkdir()
    ip, ep, names = source_files(case, d)
    given = crs_of(case, 'projected', case['usercode']) if case['kind'] == 'pose' and not case['usercode'] and src != 'geojson' and case['user'] != 'none' else None
    if src == 'geojson':
        given = crs_of(case, 'projected', case['sidecode'])
    kw = {}
    if case['user'] != 'none':
        kw['crs'] = as_form(crs_of(case, case['user'], case['usercode']), case['form'], case['user'])
    if case['lla'] != 'none':
        kw['lla_crs'] = as_form(crs_of(case, case['lla'], 32734), 'epsg', case['lla'])
    Reader = dict(osfm=param_io.OsfmReader, exif=param_io.ExifReader, geojson=param_io.OtyReader).get(src, param_io.CsvReader)
    arg = ep
    if src != 'exif':
        arg = dict(str=str(ep), openfile=fsspec.open(str(ep), 'rt')).get(case['way'], ep)
    out = dict(outcome='ok', ways=[], export='', images=[], cli=dict(exit=-1))
    blank = dict(error='', none=True, code=0, isgiven=False)

    def attempt(way, func):
        res = dict(blank, way=way)
        got = None
        try:
            got = func()
            res.update(crs_obs(case, got.crs, given))
        except Exception as ex:
            res['error'] = type(ex).__name__
            res['message'] = str(ex)[:200]
        out['ways'].append(res)
        return got

    reader = attempt('reader', lambda: Reader(arg, **kw))
    if src.startswith('csv') and not case['file'][1]:  # only the reader is told the format
        return out
    if src == 'exif':
        cams = attempt('cameras', lambda: FrameCameras.from_images(ep, io_kwargs=kw))
    else:
        i = ep if src == 'osfm' else ip
        cams = attempt('cameras', lambda: FrameCameras(i, ep, io_kwargs=kw))
    if reader is not None and cams is not None:
        o = tmp / 'out'
        o.mkdir()
        try:
            cams.write_param(o)
            out['export'] = 'ok'
        except Exception as ex:
            out['export'] = type(ex).__name__
        if case['kind'] == 'pose':
            ext = reader.read_ext_param()
            for n in names:
                e = ext[n]
                ji = cams.get(n).world_to_pixel(np.array(e['xyz']).reshape(3, 1) + OFFSETS)
                out['images'].append(dict(xyz=[repr(float(x)) for x in e['xyz']], opk=[repr(float(x)) for x in e['opk']], ji=[[repr(float(x)) for x in p] for p in ji.T]))
            if len(ext) != len(names):
                out['images'] = []
    # the command line; the world CRS of the files it exports
    if case['kind'] == 'rule' and not (src == 'geojson' and 'crs' in kw):
        o = tmp / 'cli'
        o.mkdir()
        args = []
        for opt, k in (('-c', 'crs'), ('-lc', 'lla_crs')):
            if k in kw:
                v = kw[k]
                v = v if isinstance(v, str) else v.to_wkt()
                if opt == '-c' and case['way'] == 'str' and case['user'] == 'projected':  # from a file
                    f = tmp / 'crs.txt'
                    f.write_text(v + '\n')
                    v = str(f)
                args += [opt, v]
        cmd = ['exif', *ep] if src == 'exif' else ['frame', world.write_image(d / 'im0.tif', world.texture((1, 40, 60))), '-ip', ep if src == 'osfm' else ip, '-ep', ep]
        code, text, ex = world.cli([*cmd, *args, '-e', '-od', o])
        out['cli'] = dict(blank, exit=code)
        if code == 0:
            crs = CRS.from_string(json.loads((o / 'ext_param.geojson').read_text())['world_crs'])
            out['cli'].update(crs_obs(case, crs, given))
        elif not isinstance(ex, SystemExit) and ex is not None:
            out['cli']['exit'] = 1
    return out


MODEL = (
    'SPECIFICATION Spec\nCONSTANT Requests <- MCRequests\nINVARIANTS AsResolved UserFirst NeverWrongKind ConvertsWithCrs ExportedWithCrs\nPROPERTY Decides\nCHECK_DEADLOCK FALSE\n'
)


def main(c):
    c.model('CrsRuleMC', MODEL)
    cases = c.generate('C15Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C15Trace', runs, cfg='CONSTANT Failing <- C15Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['case']['kind'] == 'pose'}
    c.rule = 'the CRS supply combinations of C15Gen.tla in each source, resolved by CrsRule.tla; poses all over the earth, positions and rotations by Place.tla'
    c.assumptions.append('projections are transverse Mercator on WGS84; heights pass unchanged through 2D world CRSs')
