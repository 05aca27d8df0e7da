"""Replays histories of Handles.tla with a pool of real handles, and records the state of all handles after each call."""
import io
import os
import warnings
from pathlib import Path
from unittest import mock

import fsspec
import numpy as np
import rasterio as rio
from rasterio.io import DatasetWriter

import files
import world
from files import Loc

OUTS = dict(ortho='ortho.tif', sharp='sharp.tif')
OUTS.update({'out-int': 'o_int.yaml', 'out-ext': 'o_ext.geojson', 'out-rpc': 'o_rpc.yaml', 'out-gcp': 'o_gcp.geojson'})


class World:
    def __init__(self, d):
        from orthority import param_io

        self.w = w = files.inputs(d)
        (d / 'odm').mkdir()
        odm = world.odm(d / 'odm' / 'p', 1)
        (d / 'ex').mkdir()
        self.files = dict(
            src=w['src'][0], dem=w['dem'], pan=w['pan'], ms=w['ms'], exif=world.exif_sources(d / 'ex', 1)[0], rpcim=w['rpc'][0], int=w['one_int'],
            csv=w['one_csv'], ext=w['one_gj'], osfm=odm / 'opensfm' / 'reconstruction.json', rpc=d / 'r.yaml', gcp=d / 'g.geojson',
        )  # fmt: skip
        self.rpc_param = param_io.read_im_rpc_param([w['rpc'][0]])
        self.gcps = param_io.read_im_gcps([w['rpc'][0]])
        self.int_param = param_io.read_oty_int_param(self.files['int'])
        self.ext_param = param_io.OtyReader(self.files['ext']).read_ext_param()
        param_io.write_rpc_param(self.files['rpc'], self.rpc_param)
        param_io.write_gcps(self.files['gcp'], self.gcps)
        # files with bad content: images of which the data is cut off, or that have no metadata; texts that can not be parsed
        for role in list(self.files):
            p = self.files[role]
            q = p.parent / f'bad_{p.name}'
            if role in ('exif', 'rpcim'):
                world.write_image(q, world.texture((1, 8, 9)))
            elif p.suffix == '.tif':
                world.write_image(q, world.texture((1, 200, 300)))
                q.write_bytes(q.read_bytes()[:2000])
            else:
                q.write_text('{"a": [1, }\n- : ][')
            self.files[role + '!'] = q
        self.opened = d / 'opened'
        self.opened.mkdir()


def make(w, role, kind, out):
    """A handle of a kind on the file of a role."""
    if role in OUTS:
        p = Path(out / OUTS[role])
        other = Path(out / f'other_{OUTS[role]}')
    else:
        p, other = w.files[role], w.opened / f'{role.strip("!")}-{kind}-{len(role)}'
    if kind == 'path':
        return p
    if kind == 'str':
        return str(p)
    if kind == 'uri':
        return p.as_uri()
    text = p.suffix != '.tif'
    write = role in OUTS
    if kind.startswith('openfile'):
        return fsspec.open(str(p), kind.split('-')[1] if '-' in kind else ('wt' if text else 'wb') if write else ('rt' if text else 'rb'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'dataset-w':
            return rio.open(other.with_suffix('.tif'), 'w', driver='GTiff', width=60, height=40, count=3, dtype='uint8')
        if kind == 'dataset-r+' and role[-1] != '!':
            return rio.open(p, 'r+')
        if kind.startswith('dataset'):
            return rio.open(p)
    if kind == 'stringio':
        return io.StringIO() if write else io.StringIO(p.read_text())
    mode = kind.split('-')[1] if '-' in kind else 'wt' if write else 'rt'
    if write and 'r' in mode:
        other.write_text('x')
    return open(other if ('w' in mode) != write or (write and 'r' in mode) else p, mode)


def usable(h, role, ref):
    """Whether an open handle can be used, and gives what it gave before."""
    if isinstance(h, rio.io.DatasetReaderBase):
        if h.mode == 'w':
            h.write(np.zeros((40, 60), 'uint8'), 1)
            return True
        return digest(h, role) == ref
    h.seek(0)
    if h.readable():
        return isinstance(h, io.StringIO) or h.read() == ref
    h.seek(0, 2)
    h.write('' if 'b' not in getattr(h, 'mode', 't') else b'')
    return True


def digest(h, role):
    if isinstance(h, rio.io.DatasetReaderBase):
        if h.mode == 'w':
            return None
        a = None if role[-1] == '!' else h.read().tobytes()
        return (str(h.profile), h.mode, h.name, h.tags(), a)
    if h.readable():
        h.seek(0)
        return h.read()
    return None


def own_fds(tmp):
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink(f'/proc/self/fd/{n}')
        except OSError:
            continue
        if p.startswith(str(tmp)):
            out[int(n)] = p
    return out


def perform(w, op, h, fault, keep):
    """One call, with handles h."""
    from orthority import param_io
    from orthority.camera import create_camera
    from orthority.factory import FrameCameras, RpcCameras
    from orthority.ortho import Ortho
    from orthority.pan_sharp import PanSharpen

    i = dict(world.interior(0))
    xyz, opk = world.pose(0)
    cam = create_camera(i.pop('type'), **i, xyz=xyz, opk=opk)
    patch = mock.patch.object(DatasetWriter, 'write', side_effect=OSError(28, 'injected')) if fault == 'worker' else mock.patch.dict({})
    arg = fault == 'argument'
    crs = rio.CRS.from_string(world.CRS)
    if op == 'ortho':
        o = Ortho(h[0], h[1], cam, crs=world.CRS)
        keep.append(o)
        with patch:
            o.process(h[2], resolution=(3.0, 3.0), overwrite=True, **(dict(interp='foo') if arg else {}))
    elif op == 'pan':
        o = PanSharpen(h[0], h[1])
        keep.append(o)
        with patch:
            o.process(h[2], weights=[1, 1, 1], overwrite=True, **(dict(dtype='int64') if arg else {}))
    elif op == 'camera-read':
        cam.read(h[0])
    elif op == 'exif-int':
        param_io.read_exif_int_param(h[0])
    elif op == 'exif-ext':
        r = param_io.ExifReader([h[0]], crs=world.CRS)
        keep.append(r)
        r.read_int_param(), r.read_ext_param()
    elif op == 'image-rpc':
        param_io.read_im_rpc_param([h[0]])
    elif op == 'image-gcps':
        param_io.read_im_gcps([h[0]])
    elif op == 'frame-images':
        keep.append(FrameCameras.from_images([h[0]], io_kwargs=dict(crs=world.CRS)))
    elif op == 'rpc-images':
        keep.append(RpcCameras.from_images([h[0]]))
    elif op == 'refine':
        c = RpcCameras.from_images([h[0]])
        keep.append(c)
        c.refine([h[0]])
    elif op == 'int':
        param_io.read_oty_int_param(h[0])
    elif op == 'osfm-int':
        param_io.read_osfm_int_param(h[0])
    elif op in ('csv', 'osfm-ext', 'oty-ext'):
        r = {'csv': param_io.CsvReader, 'osfm-ext': param_io.OsfmReader, 'oty-ext': param_io.OtyReader}[op](h[0], **({} if op == 'oty-ext' else dict(crs=world.CRS)))
        keep.append(r)
        r.read_ext_param()
    elif op == 'rpc':
        param_io.read_oty_rpc_param(h[0])
    elif op == 'gcps':
        param_io.read_oty_gcps(h[0])
    elif op == 'frame':
        keep.append(FrameCameras(h[0], h[1]))
    elif op == 'write-int':
        param_io.write_int_param(h[0], w.int_param, overwrite=True)
    elif op == 'write-ext':
        param_io.write_ext_param(h[0], w.ext_param, crs='nonsense' if arg else crs, overwrite=True)
    elif op == 'write-rpc':
        param_io.write_rpc_param(h[0], w.rpc_param, overwrite=True)
    elif op == 'write-gcps':
        param_io.write_gcps(h[0], w.gcps, overwrite=True)


def drive(case, tmp):
    from orthority import param_io  # noqa: F401

    warnings.simplefilter('ignore')
    w = World(tmp / 'in')
    spec_roles = case['roles']
    out = Loc(tmp / 'out')
    ref = Loc(tmp / 'ref')
    pool, refs, steps, keep, expected = {}, {}, [], [], {}

    def get(role, kind):
        if (role, kind) not in pool:
            pool[role, kind] = make(w, role, kind, out)
            if hasattr(pool[role, kind], 'closed'):
                refs[role, kind] = digest(pool[role, kind], role)
        return pool[role, kind]

    def state():
        return {f'{r} {k}': 'closed' if h.closed else 'open' for (r, k), h in sorted(pool.items()) if hasattr(h, 'closed')}

    for st in case['steps']:
        if st['kind'] == 'toggle':
            h = get(st['role'], st['handle'])
            if h.closed:
                pool.pop((st['role'], st['handle']))
                get(st['role'], st['handle'])
            else:
                h.close()
            continue
        names = list(spec_roles[st['op']])
        if st['fault'] == 'content':
            names[0] += '!'
        h = [get(r, k) for r, k in zip(names, st['args'])]
        isopen = [not getattr(x, 'closed', False) for x in h]
        for r, x in zip(names, h):
            if isinstance(x, io.IOBase) and not x.closed:
                x.seek(0)
                if r in OUTS and x.writable():
                    x.truncate()
        o = [(n, k, x) for n, k, x in zip(names, st['args'], h) if n in OUTS]
        for n, k, _ in o:
            # the output is new, so that an incomplete one is seen
            if not k.startswith('fileobj'):
                Path(out / OUTS[n]).unlink(missing_ok=True)
        before, fds = state(), own_fds(tmp)
        ob = [out.digest(OUTS[n]) for n, _, _ in o]
        try:
            perform(w, st['op'], h, st['fault'], keep)
            res, err = 'ok', ''
        except Exception as ex:
            res, err = 'error', f'{type(ex).__name__}: {ex}'
            keep.append(ex)
        left = sorted({p[len(str(tmp)) + 1 :] for n, p in own_fds(tmp).items() if fds.get(n) != p})
        oa = [out.digest(OUTS[n]) for n, _, _ in o]
        after = state()
        bad = []
        output, exp = [], []
        if res == 'ok' and o:
            for n, k, x in o:
                if n not in expected:
                    perform(w, st['op'], [w.files[a] for a in names[:-1]] + [ref / OUTS[n]], 'none', [])
                    expected[n] = ref.content(OUTS[n])
                exp.append(expected[n])
                if k in ('fileobj', 'stringio') and not x.closed:
                    x.flush()
                if k == 'stringio':
                    out.fs.pipe_file(out / f'sio_{OUTS[n]}', x.getvalue().encode() if not x.closed else b'')
                output.append(out.content(('sio_' if k == 'stringio' else '') + OUTS[n]))
        for (r, k), x in sorted(pool.items()):
            if not getattr(x, 'closed', True):
                try:
                    ok = usable(x, r, refs.get((r, k)))
                except Exception as ex:
                    ok = False
                    err += f' | {r} {k}: {ex}'
                if not ok:
                    bad.append(f'{r} {k}')
        steps.append(dict(
            op=st['op'], args=st['args'], fault=st['fault'], open=isopen, res=res, error=err[:200], pool_before=before, pool_after=after, unusable=bad,
            left_open=left, out_before=ob, out_after=oa, output=output, expected=exp,
        ))  # fmt: skip
    for x in pool.values():
        if not getattr(x, 'closed', True):
            x.close()
    return dict(outcome='ok', steps=steps)
