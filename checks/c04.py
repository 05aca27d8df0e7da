"""C04: a failed step is never reported as success (Pipeline.tla, PipelineLog.tla)."""
import resource
import signal
import warnings

import rasterio as rio

import c03
import instr
import pipe
import world as W


def damage(path, at):
    """Cut a file, or destroy its pixel data, so that it opens but cannot be read to its end."""
    data = path.read_bytes()
    if at == 1:
        path.write_bytes(data[: len(data) - len(data) // 3])
    else:
        n = len(data) // (at + 1)
        path.write_bytes(data[: len(data) // 2] + b'\xa5' * n + data[len(data) // 2 + n :])
    try:
        with rio.open(path) as im:
            im.read()
    except Exception:
        return True
    return False


def recompress(path):
    """Row by row deflated image, with the directory at its start."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as im:
            a, prof, tags = im.read(), im.profile, im.tags()
        prof.update(compress='deflate', blockysize=1, tiled=False)
        prof.pop('blockxsize', None)
        with rio.open(path, 'w', **prof) as im:
            im.write(a)
            im.update_tags(**tags)


def recorder(case, **kw):
    f = lambda k: float(case.get(k, 0))  # noqa: E731
    return instr.Recorder(workers=case.get('workers') or None, faults=case['faults'], delay=f('delay'), linger=f('linger'), **kw)


def full_disk(case, func):
    """Run func when files cannot grow beyond a limit, as when the disk is full."""
    def limited():
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (case['limit'], old[1]))
        try:
            func()
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
            signal.signal(signal.SIGXFSZ, sig)

    return limited


def drive_run(case, tmp):
    pan = case['kind'] == 'pan'
    files = (pipe.pan_files if pan else pipe.ortho_files)(case, tmp)
    broken = False
    if case.get('damage'):
        path = tmp / (case['damage'] + '.tif')
        recompress(path)
        broken = damage(path, case['at'])
    rec = recorder(case)
    if broken:
        rec.add(ev='fault', th='none', op='file')
    elif case.get('damage'):
        return dict(outcome='return', log=[dict(ev='return')], shape=dict(count=0, width=0, height=0), skipped=True)
    func = (pipe.pan_call if pan else pipe.ortho_call)(case, files, tmp / 'out.tif')
    if case.get('limit'):
        rec.add(ev='fault', th='none', op='disk')
        func = full_disk(case, func)
    return instr.call(rec, func)


class Failed(Exception):
    pass


def run_cli(args):
    code, out, ex = W.cli(args)
    if code != 0:
        raise Failed(f'exit code {code}: {out[-300:]} {ex!r}')


CO = ['-co', 'tiled=yes', '-co', 'blockxsize=32', '-co', 'blockysize=32']


def drive_cli(case, tmp):
    (tmp / 'out').mkdir()
    if case['name'] == 'cli-frame':
        W.dem(tmp / 'dem.tif')
        src = W.sources(tmp, case['images'], bands=1)
        ip, ep, _ = W.frame_params(tmp, case['images'], cams=2)
        args = ['frame', '-d', tmp / 'dem.tif', '-ip', ip, '-ep', ep, '-od', tmp / 'out', '-r', '2.5', '-wm', *CO, *src]
        want = [f'im{k}_ORTHO.tif' for k in range(case['images'])]
    else:
        pan, ms = pipe.pan_files(dict(stat_tiles=1, bands=2), tmp)
        args = ['sharpen', '-p', pan, '-ms', ms, '-of', tmp / 'out' / 'o.tif', *CO]
        want = ['o.tif']
    obs = instr.call(recorder(case), lambda: run_cli(args))
    obs.update(entries=sorted(p.name for p in (tmp / 'out').glob('*')), expected=want)
    return obs


def drive_meta(case, tmp):
    from orthority import param_io
    from orthority.factory import FrameCameras, RpcCameras

    r, n = case['reader'], case['n']
    cli = r.startswith('cli-')
    base = r.removeprefix('cli-')
    if base == 'frame':
        src = W.sources(tmp, n, bands=1)
        ip, ep, _ = W.frame_params(tmp, n)
    elif base == 'exif':
        src = W.exif_sources(tmp, n, bands=1)
    else:
        src = W.rpc_sources(tmp, n, bands=1)
    W.dem(tmp / 'dem.tif')
    bad, p = case['bad'], src[case['at']]
    broken = bad != 'none' and not (base == 'frame' and bad == 'notags')
    if bad == 'missing':
        p.unlink()
    elif bad == 'empty':
        p.write_bytes(b'')
    elif bad == 'garbage':
        p.write_bytes(b'II*\0' + b'\x17' * 300)
    elif bad == 'notags':
        W.write_image(p, W.texture((1, 40, 60)))
    out = tmp / 'out'
    out.mkdir()
    got = {}

    def func():
        if not cli and base == 'exif':
            got['e'] = sorted(FrameCameras.from_images(src, io_kwargs=dict(crs=W.CRS)).filenames)
        elif not cli and base == 'rpc':
            got['e'] = sorted(RpcCameras.from_images(src).filenames)
        elif not cli:
            got['e'] = sorted(param_io.read_im_gcps(src))
        else:
            a = ['-d', tmp / 'dem.tif', '-od', out, '-r', '5', '-c', W.CRS]
            if base == 'frame':
                run_cli(['frame', '-ip', ip, '-ep', ep, *a, *src])
            elif base == 'exif':
                run_cli(['exif', *a, *src])
            else:
                run_cli(['rpc', *a, *(['-gr', 'tags'] if base == 'gcps' else []), *src])
            got['e'] = sorted(q.name for q in out.glob('*'))

    rec = instr.Recorder(faults=case['faults'])
    if broken:
        rec.add(ev='fault', th='none', op='file')
    obs = instr.call(rec, func)
    want = [q.stem + '_ORTHO.tif' for q in src] if cli else [q.name for q in src]
    obs.update(entries=got.get('e', []), expected=sorted(want))
    return obs


def drive(case, tmp):
    warnings.simplefilter('ignore')
    return dict(meta=drive_meta, cli=drive_cli).get(case['kind'], drive_run)(case, tmp)


def main(c):
    if c.replay_case is None:
        c03.models(c, 1)
    cases = c.generate('C04Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases, timeout=60)
    c.judge('C04Trace', runs, cfg='CONSTANT Failing <- C04Failing')
    c.nontrivial = {str(r['case']) for r in runs if any(e['ev'] == 'fault' for e in r['obs'].get('log', []))}
    c.extra['faults_that_happened'] = len(c.nontrivial)
    c.extra['without_fault'] = sum(not any(e['ev'] == 'fault' for e in r['obs'].get('log', [])) for r in runs)
    c.rule = 'fault points of the runs in Pipeline.tla x kinds of errors x pools, and bad images at every place of a list; counted when the fault happened'
    c.level = 'model_checking'
    c.assumptions = [
        'faults are raised from the rasterio and OpenCV functions and the jobs of the thread pool; damaged files fail in GDAL',
    ]
