"""C10: a camera answers from its current parameters only, not from its history."""
import os
import pickle
import warnings
import zlib

import numpy as np

import camlib
import world
from vf import num

ALPHAS = {1: 0.0, 2: 0.3, 3: 0.7, 4: 1.0, 5: 0.68, 6: 0.305}
INTERPS = ['nearest', 'bilinear', 'cubic', 'average', 'lanczos']


def forked(func):
    """Runs func in a new process and returns its result: nothing that the code keeps gets in, or out."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(func()))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('child failed')
    return pickle.loads(data)


def make(case, k, at):
    """A camera with parameters at, and the objects that it was made from."""
    from orthority.camera import create_camera

    if case['type'] == 'rpc':
        rpc = world.rpc(k).to_dict()
        opt = dict(rpc_pixel_error_threshold='1e-6') if k else {}
        a = dict(im_size=(60, 40), rpc=rpc, rpc_options=opt, crs='EPSG:32735' if k == 1 else None)
        return create_camera('rpc', **a), [a]
    t, ip, _ = camlib.frame_params(dict(case['cams'][k], xyz=['0'] * 3, opk=['0'] * 3))
    ip = {n: list(v) if isinstance(v, tuple) else v for n, v in ip.items()}
    ext = dict(xyz=None, opk=None)
    if at['pose']:
        ext = pose(case, at['pose'])
    return create_camera(t, **ip, **ext, distort=at['distort'], alpha=ALPHAS[at['alpha']]), [ip, ext]


def pose(case, n):
    p = case['poses'][n - 1]
    xyz = np.array([num(v) for v in p['xyz']])
    opk = np.radians([num(v) for v in p['opk']])
    return dict(xyz=xyz, opk=opk) if n % 2 else dict(xyz=tuple(xyz.tolist()), opk=opk.tolist())


def sig(v):
    if isinstance(v, np.ndarray):
        return f'{zlib.crc32(np.ascontiguousarray(v).tobytes()):08x}{v.shape}{v.dtype}'
    if isinstance(v, (tuple, list)):
        return '(' + ','.join(map(sig, v)) + ')'
    if isinstance(v, dict):
        return '{' + ','.join(f'{k}:{sig(x)}' for k, x in v.items()) + '}'
    return repr(v)


def scribble(v):
    """Overwrites what a query returned, as a caller may."""
    if isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = 77
    elif isinstance(v, (tuple, list)):
        for x in v:
            scribble(x)


def args_of(case, n, k, q, bad):
    """The arguments of a query."""
    rng = np.random.default_rng(1000 * n + k)
    rpc = case['type'] == 'rpc'
    geo = rpc and k == 0
    c = (24.8305, -34.318) if geo else (300000.0, 6200000.0)
    if geo:
        r = world.rpc(0)
        c = (r.long_off, r.lat_off)
    s = 1e-4 if geo else 8.0
    m = 1 if n % 4 == 0 else 6
    xyz = np.array([c[0] + s * rng.uniform(-1, 1, m), c[1] + s * rng.uniform(-1, 1, m), 100 + rng.uniform(-3, 3, m)])
    size = (60, 40) if rpc else case['cams'][k]['size']
    ji = np.array([rng.uniform(0, size[0] - 1, m), rng.uniform(0, size[1] - 1, m)])
    if n % 5 == 0:
        xyz[:, 0] = np.nan
        ji[:, -1] = np.nan
    interp = INTERPS[n % 5]
    if bad:
        return dict(
            project=dict(xyz=xyz[:2]), interp=0, **{'back-project': dict(ji=ji[:1], z=100.0)}
        ).get(q, dict(xyz=xyz[:2])) | dict(q={'project': 'project', 'back-project': 'back-project'}.get(q, 'remap' if q in ('remap', 'read') else 'project'))
    if q == 'project':
        return dict(xyz=xyz)
    if q == 'back-project':
        return dict(ji=ji, z=100.0 if n % 2 else 100 + rng.uniform(-3, 3, m))
    if q == 'pixel-boundary':
        return dict(num_pts=[None, 20, 33][n % 3])
    if q == 'world-boundary':
        return dict(z=101.5, num_pts=[None, 12][n % 2])
    if q == 'surface-boundary':
        import rasterio as rio

        z = (100 + np.random.default_rng(n).uniform(0, 3, (20, 24))).astype('float64' if n % 2 else 'float32')
        z[:2] = np.nan if n % 3 == 0 else z[:2]
        return dict(z=z, num_pts=16, transform=rio.Affine(10 * s / 8, 0, c[0] - 120 * s / 8, 0, -10 * s / 8, c[1] + 100 * s / 8), interp=interp)
    if q in ('read', 'remap'):
        if steady(case):
            n = 4 + (n % 5 == 4) * 2  # images of one kind
        im = rng.integers(1, 200, (2, size[1], size[0])).astype(['uint8', 'int16', 'float32'][n % 3])
        a = dict(im=im, nodata=None if n % 2 else 3, interp=interp)
        if q == 'remap':
            x, y = np.meshgrid(c[0] + s * np.linspace(-6, 6, 13), c[1] + s * np.linspace(5, -5, 11))
            a.update(x=x, y=y, z=np.full(x.shape, 100.0, dtype='float32' if n % 2 else 'float64'))
        else:
            a.update(indexes=[None, [2], [1, 2], [2, 1]][n % 4], dtype=[None, 'float32'][n % 2])
        return a
    return {}


def query(cam, case, q, a, tmp):
    from rasterio.io import MemoryFile

    if q == 'project':
        return cam.world_to_pixel(a['xyz'])
    if q == 'back-project':
        return cam.pixel_to_world_z(a['ji'], a['z'])
    if q == 'pixel-boundary':
        return cam.pixel_boundary(**a)
    if q == 'world-boundary':
        return cam.world_boundary(**a)
    if q == 'surface-boundary':
        return cam.world_boundary(a['z'], num_pts=a['num_pts'], transform=a['transform'], interp=interp_of(a['interp']))
    if q == 'position':
        return [getattr(cam, n, None) for n in ('pos', 'im_size')]
    if q == 'read':
        im = a['im']
        with MemoryFile() as mf:
            with mf.open(driver='GTiff', count=2, height=im.shape[1], width=im.shape[2], dtype=im.dtype) as ds:
                ds.write(im)
            with mf.open() as ds:
                return cam.read(ds, indexes=a['indexes'], dtype=a['dtype'], nodata=a['nodata'], interp=a['interp'])
    if q == 'remap':
        return cam.remap(a['im'], a['x'], a['y'], a['z'], nodata=a['nodata'], interp=a['interp'])
    if q == 'ortho':
        import rasterio as rio

        from orthority.ortho import Ortho

        size = cam.im_size
        d = tmp / 'ortho'
        d.mkdir(exist_ok=True)
        src = world.write_image(d / f'src{size[0]}.tif', world.texture((1, size[1], size[0])))
        dem = d / 'dem.tif'
        if not dem.exists():
            world.dem(dem, nx=60, ny=60, res=5.0, x0=world.X0 - 150, y0=world.Y0 + 150)
        out = d / 'out.tif'
        crs = None if case['type'] == 'rpc' else world.CRS
        if case['type'] == 'rpc':
            crs = cam.crs
        o = Ortho(src, dem, cam, crs=crs)
        o.process(out, resolution=(4.0, 4.0) if not crs.is_geographic else (4e-5, 4e-5), overwrite=True) if not isinstance(crs, str) else o.process(
            out, resolution=(4.0, 4.0), overwrite=True
        )
        with rio.open(out) as im:
            return [im.read(), tuple(im.transform)]
    raise KeyError(q)


def interp_of(name):
    from orthority.enums import Interp

    return Interp[name]


def steady(case):
    return case['name'].startswith('again') or zlib.crc32(case['name'].encode()) % 2 == 0


def ask(cam, case, n, st, tmp, k, results=None):
    bad = st['kind'] == 'bad-query'
    a = args_of(case, n, k, st['value'], bad)
    before = sig(a)
    q = a.pop('q', st['value'])
    try:
        if bad and q == 'remap':
            v = cam.remap(np.zeros((40, 60), 'uint8'), a['xyz'], a['xyz'], a['xyz'])
        else:
            v = query(cam, case, q, a, tmp)
        out = dict(error='', value=sig(v))
    except Exception as ex:
        v, out = None, dict(error=type(ex).__name__, value='')
    if bad:
        a['q'] = q
    same = sig(a) == before
    if results is None or zlib.crc32(case['name'].encode()) % 3:
        scribble(v)
    else:
        # what was returned stays as it is
        results.append((v, sig(v)))
    return out, same


def history(case, tmp):
    warnings.simplefilter('ignore')
    made = [make(case, k, case['start'][k]) for k in range(2)]
    cams = [m[0] for m in made]
    kept = [x for m in made for x in m[1]]
    sigs = [sig(x) for x in kept]
    out, results = [], []
    for n, st in enumerate(case['steps']):
        k = st['cam'] - 1
        cam = cams[k]
        given, same = dict(error='', value=''), True
        if st['kind'] == 'update':
            p = pose(case, st['value'])
            kept.append(p)
            sigs.append(sig(p))
            cam.update(**p)
        elif st['kind'] == 'alpha':
            cam.alpha = ALPHAS[st['value']]
        elif st['kind'] == 'distort':
            cam.distort = bool(st['value'])
        elif st['kind'] == 'bad-update':
            try:
                cam.update(xyz=(1.0, 2.0), opk=(0.0, 0.0, 0.0))
            except Exception as ex:
                given['error'] = type(ex).__name__
        else:
            given, same = ask(cam, case, n, st, tmp, k, results)
        same = same and all(sig(v) == g for v, g in results) and sigs == [sig(x) for x in kept]
        s = [] if case['type'] == 'rpc' else [bool(cam.distort), sorted(ALPHAS, key=lambda i: abs(ALPHAS[i] - cam.alpha))[0], pos_of(case, cam, st['at']['pose'])]
        out.append((given, same, s))
    return out


def pos_of(case, cam, n):
    if cam.pos is None:
        return 0
    return n if n and np.array_equal(pose(case, n)['xyz'], cam.pos) else -1


def drive(case, tmp):
    import orthority.camera  # noqa: F401  (imported, not used, in the process that forks)
    import orthority.ortho  # noqa: F401

    def fresh(n, st):
        def f():
            warnings.simplefilter('ignore')
            d = tmp / f'f{n}'
            d.mkdir()
            k = st['cam'] - 1
            return ask(make(case, k, st['at'])[0], case, n, st, d, k)[0]

        return forked(f)

    hist = forked(lambda: history(case, tmp))
    steps = []
    for n, (st, (given, same, s)) in enumerate(zip(case['steps'], hist)):
        fr = fresh(n, st) if st['kind'] in ('query', 'bad-query') else given
        steps.append(dict(
            kind=st['kind'], value=str(st['value']), at=st['at'], rpc=case['type'] == 'rpc', given=given, fresh=fr, same=same, settings=s,
            expected=[st['at']['distort'], st['at']['alpha'], st['at']['pose']],
        ))  # fmt: skip
    return dict(outcome='ok', steps=steps)


MODEL = 'SPECIFICATION Spec\nINVARIANT KeptIsCurrent\nPROPERTY AnswersAreFresh\nCHECK_DEADLOCK FALSE\nCONSTANTS NPoses = 2\nNAlphas = 2\nMaxSteps = {}\nNCams = 2\n'


def main(c):
    c.model('CameraHist', MODEL.format(4 if c.quick else 6))
    cases = c.generate('C10Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C10Trace', runs, cfg='CONSTANT Failing <- C10Failing')
    q = [s for r in runs for s in r['obs'].get('steps', []) if s['kind'] == 'query']
    c.evaluations = len(q)
    c.nontrivial = {i for i, s in enumerate(q) if not s['given']['error']}
    c.rule = 'histories of CameraHist.tla for pairs of cameras of each type: each query before and after each change; random histories'
    c.level = 'model_checking'
    c.assumptions = ['calls on a camera are made one after the other']
