"""C24: control points and RPC models are read as they are stored with images or in files."""
import json
import warnings
from contextlib import ExitStack
from xml.sax.saxutils import quoteattr

import numpy as np

import world

CRSS = {'wgs84': 'EPSG:4326', 'wgs84-3d': 'EPSG:4979', 'meridian': '+proj=longlat +datum=WGS84 +pm=10 +no_defs'}
KEYS = dict(
    line_off='LINE_OFF', samp_off='SAMP_OFF', lat_off='LAT_OFF', long_off='LONG_OFF', height_off='HEIGHT_OFF', line_scale='LINE_SCALE', samp_scale='SAMP_SCALE',
    lat_scale='LAT_SCALE', long_scale='LONG_SCALE', height_scale='HEIGHT_SCALE', line_num_coeff='LINE_NUM_COEFF', line_den_coeff='LINE_DEN_COEFF',
    samp_num_coeff='SAMP_NUM_COEFF', samp_den_coeff='SAMP_DEN_COEFF',
)  # fmt: skip
RPB = dict(
    line_off='lineOffset', samp_off='sampOffset', lat_off='latOffset', long_off='longOffset', height_off='heightOffset', line_scale='lineScale', samp_scale='sampScale',
    lat_scale='latScale', long_scale='longScale', height_scale='heightScale', line_num_coeff='lineNumCoef', line_den_coeff='lineDenCoef',
    samp_num_coeff='sampNumCoef', samp_den_coeff='sampDenCoef',
)  # fmt: skip


def text(t):
    return '' if t == 'none' else t


def vrt(path, size, inner):
    world.write_image(path.parent / f'{path.stem}-data.tif', world.texture((1, size[1], size[0])))
    path.write_text(
        f'<VRTDataset rasterXSize="{size[0]}" rasterYSize="{size[1]}">{inner}<VRTRasterBand dataType="Byte" band="1"><SimpleSource>'
        f'<SourceFilename relativeToVRT="1">{path.stem}-data.tif</SourceFilename><SourceBand>1</SourceBand></SimpleSource></VRTRasterBand></VRTDataset>'
    )


def gcp_image(case, path, gcps):
    import rasterio as rio
    from rasterio.control import GroundControlPoint

    crs = CRSS.get(case['crs'], f"EPSG:{case['code']}")
    if case['store'] == 'vrt':
        rows = ''.join(
            f'<GCP Id={quoteattr(text(g["id"]))} Info={quoteattr(text(g["info"]))} Pixel="{g["ji"][0]}" Line="{g["ji"][1]}" X="{g["xy"][0]}" Y="{g["xy"][1]}" Z="{g["lla"][2]}"/>' for g in gcps
        )
        vrt(path, (60, 40), f'<GCPList Projection={quoteattr(rio.CRS.from_string(crs).to_wkt())}>{rows}</GCPList>' if gcps else '')
    else:
        kw = {}
        if gcps:
            kw = dict(gcps=[GroundControlPoint(row=float(g['ji'][1]), col=float(g['ji'][0]), x=float(g['xy'][0]), y=float(g['xy'][1]), z=float(g['lla'][2])) for g in gcps], crs=crs)
        world.write_image(path, world.texture((1, 40, 60)), **kw)


def rpc_image(case, path, im, rpc):
    from rasterio.rpc import RPC

    size = [int(x) for x in im['size']]
    if case['store'] == 'vrt':
        md = ''.join(f'<MDI key="{KEYS[k]}">{" ".join(v)}</MDI>' for k, v in rpc.items())
        return vrt(path, size, f'<Metadata domain="RPC">{md}</Metadata>' if rpc else '')
    kw = {}
    if rpc and case['store'] == 'tiff':
        kw['rpcs'] = RPC(**{k: [float(x) for x in v] if 'coeff' in k else float(v[0]) for k, v in rpc.items()}, err_bias=None, err_rand=None)
    world.write_image(path, world.texture((1, size[1], size[0])), **kw)
    if rpc and case['store'] == 'text':
        units = dict(line='pixels', samp='pixels', lat='degrees', long='degrees', height='meters')
        lines = []
        for k, v in rpc.items():
            if 'coeff' in k:
                lines += [f'{KEYS[k]}_{i + 1}: {x}' for i, x in enumerate(v)]
            else:
                lines.append(f'{KEYS[k]}: {v[0]} {units[k.split("_")[0]]}')
        path.with_name(path.stem + '_RPC.TXT').write_text('\n'.join(lines) + '\n')
    elif rpc and case['store'] == 'rpb':
        lines = ['satId = "X";', 'bandId = "P";', 'SpecId = "RPC00B";', 'BEGIN_GROUP = IMAGE', '\terrBias = 0.0;', '\terrRand = 0.0;']
        for k, v in rpc.items():
            lines.append(f'\t{RPB[k]} = {v[0]};' if len(v) == 1 else f'\t{RPB[k]} = (\n' + ',\n'.join(f'\t\t\t{x}' for x in v) + ');')
        path.with_suffix('.RPB').write_text('\n'.join([*lines, 'END_GROUP = IMAGE', 'END;']) + '\n')


def feature(name, g):
    p = dict(filename=name, ji=[float(x) for x in g['ji']])
    for k in ('id', 'info'):
        if g[k] != 'none':
            p[k] = g[k]
    lat, lon, alt = map(float, g['lla'])
    return dict(type='Feature', properties=p, geometry=dict(type='Point', coordinates=[lon, lat, alt]))


def geojson(case):
    per = [[feature(im['name'], g) for g in im['gcps']] for im in case['images']]
    if case['mix']:  # features of images alternate; the images stay in the order of their first feature
        feats = [fs[k] for k in range(max(map(len, per))) for fs in per if k < len(fs)]
    else:
        feats = [f for fs in per for f in fs]
    doc = dict(type='FeatureCollection', features=feats)
    f = per[case['bad'] - 1][-1]
    s = case['spoil']
    if s == 'no-ji':
        del f['properties']['ji']
    elif s == 'ji-3':
        f['properties']['ji'].append(1.0)
    elif s == 'ji-text':
        f['properties']['ji'][1] = '12.5'
    elif s == 'no-filename':
        del f['properties']['filename']
    elif s == 'filename-number':
        f['properties']['filename'] = 12
    elif s == 'coordinates-2':
        f['geometry']['coordinates'].pop()
    elif s == 'coordinates-text':
        f['geometry']['coordinates'][2] = '1.0'
    elif s == 'line':
        f['geometry'] = dict(type='LineString', coordinates=[[1.0, 2.0, 3.0]] * 2)
    elif s == 'no-geometry':
        f['geometry'] = None
    elif s == 'not-features':
        doc['features'] = dict(a=1)
    elif s == 'no-type':
        doc['type'] = 'Features'
    elif s == 'properties-null':
        f['properties'] = None
    return '{"type": "FeatureCollection", "features": [' if s == 'nonsense' else json.dumps([doc] if s == 'list' else doc)


def drive(case, tmp):
    import fsspec
    import rasterio as rio
    from orthority import param_io

    warnings.simplefilter('ignore')
    d = tmp / 'in'
    d.mkdir()
    out = dict(outcome='ok', error='', named=True, images=[], unchanged=True)
    files = []
    if case['store'] == 'geojson':
        files = [d / 'gcps.geojson']
        files[0].write_text(geojson(case))
    else:
        for i, im in enumerate(case['images']):
            p = d / im['name']
            bad = case['bad'] == i + 1 and case['spoil'] in ('no-gcps', 'no-rpc')
            if case['kind'] == 'gcps':
                gcp_image(case, p, [] if bad else im['gcps'])
            else:
                rpc_image(case, p, im, {} if bad else {k: im['rpc'][k] for k in KEYS})
            files.append(p)
            if case['bad'] == i + 1 and case['spoil'] == 'corrupt':
                p.write_text('not an image')
            elif case['bad'] == i + 1 and case['spoil'] == 'missing':
                p.unlink()
    before = {p.name: p.read_bytes() for p in d.iterdir()}
    with ExitStack() as st:
        way = case['way']
        args = [
            str(f) if way == 'str' else fsspec.open(str(f), 'rt' if case['store'] == 'geojson' else 'rb') if way == 'openfile' and case['store'] != 'vrt'
            else st.enter_context(rio.open(f)) if way == 'dataset' and case['store'] != 'geojson' else f for f in files
        ]  # fmt: skip
        try:
            if case['store'] == 'geojson':
                got = param_io.read_oty_gcps(args[0])
            else:
                got = (param_io.read_im_gcps if case['kind'] == 'gcps' else param_io.read_im_rpc_param)(args)
        except Exception as ex:
            name = files[0].name if case['store'] == 'geojson' else case['images'][case['bad'] - 1]['name']
            out.update(error=type(ex).__name__, message=str(ex)[:200], named=name in str(ex))
            return out
    nums = lambda v: [repr(float(x)) for x in (v if isinstance(v, (tuple, list)) else [v])]
    word = lambda t: 'none' if t is None else str(t)
    for name, v in got.items():
        if case['kind'] == 'gcps':
            out['images'].append(dict(name=name, gcps=[dict(ji=nums(g['ji']), xyz=nums(g['xyz']), id=word(g['id']), info=word(g['info'])) for g in v]))
        else:
            out['images'].append(dict(name=name, size=nums(v['im_size']), rpc={k: nums(x) for k, x in v['rpc'].items() if x is not None}))
    out['unchanged'] = before == {p.name: p.read_bytes() for p in d.iterdir() if not p.name.endswith('.aux.xml')}
    return out


def main(c):
    cases = c.generate('C24Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C24Trace', runs, cfg='CONSTANT Failing <- C24Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['obs'].get('images')}
    c.level = 'exploration'
    c.rule = 'stores of GCPs and RPC models of C24Gen.tla in GeoTIFF and VRT tags, RPC sidecar files and GeoJSON; Tags.tla says what reading gives'
    c.assumptions += ['GCP positions are in WGS84 based CRSs with ellipsoidal heights', 'GDAL reads tags and sidecar files as documented']
