"""C03: the output does not depend on the thread schedule (Pipeline.tla, PipelineLog.tla)."""
import warnings

import numpy as np

import instr
import pipe

CFG = '''SPECIFICATION Spec
CONSTANTS Tiles = {tiles} StatTiles = {stats} Workers = {{{workers}}} Kind = "{kind}" Bands = {bands} Masked = {masked} Ovw = {ovw}
  MaxFaults = {faults} Locked = {locked} Waits = {waits} Collects = {collects} KeepLog = {log}
CHECK_DEADLOCK FALSE
'''
INV = 'INVARIANTS TypeOK Once AtMostOnce NoSuccessWithFault NoErrorWithoutFault NoAccessWhenClosed Mutex LateOverviews NeverStuck'


def cfg(kind, tiles, workers, stats=1, bands=2, masked=True, ovw=True, faults=0, log=False, locked=True, waits=True, collects=True):
    b = lambda v: str(bool(v)).upper()  # noqa: E731
    return CFG.format(
        kind=kind, tiles=tiles, stats=stats, workers=', '.join(f'w{k}' for k in range(workers)), bands=bands, masked=b(masked),
        ovw=b(ovw), faults=faults, log=b(log), locked=b(locked), waits=b(waits), collects=b(collects),
    )  # fmt: skip


def models(c, faults):
    """Exhaustive model checking of the design, and of designs that it has to reject."""
    big = 3 if c.quick else 4
    for kind in ('ortho', 'perband', 'pan'):
        c.model('Pipeline', cfg(kind, big, 2 if c.quick else 3, stats=2, faults=faults) + INV + '\nPROPERTY Terminates\n')
        c.model('Pipeline', cfg(kind, 2 if kind != 'ortho' else 3, 2, stats=1, faults=faults, log=True) + INV + ' LogOk\n')
    for bad in ('locked', 'waits', 'collects'):
        if bad == 'locked' or faults:
            rc, out = c.tlc('Pipeline', cfg('pan', 2, 2, stats=1, faults=1, **{bad: False}) + INV + '\n', workers=4)
            if 'is violated' not in out:
                raise RuntimeError(f'the design without "{bad}" is not rejected:\n{out[-2000:]}')


def job_number(case, phase, tile):
    if case['kind'] == 'pan':
        return tile if phase == 1 else case['stat_tiles'] + tile
    return (phase - 1) * case['tiles'] + tile


def num_jobs(case):
    if case['kind'] == 'pan':
        return case['stat_tiles'] + case['tiles']
    return case['tiles'] * (case['bands'] if case['kind'] == 'perband' else 1)


def drive(case, tmp):
    warnings.simplefilter('ignore')
    pan = case['kind'] == 'pan'
    files = (pipe.pan_files if pan else pipe.ortho_files)(case, tmp)
    call = pipe.pan_call if pan else pipe.ortho_call
    ref = instr.call(instr.Recorder(workers=1), call(case, files, tmp / 'ref.tif'))
    if ref['outcome'] != 'return':
        return ref
    order = [(e, job_number(case, p, t)) for e, p, t in case.get('order', [])]
    if ref['jobs'] != num_jobs(case):
        order = []  # the jobs are not those of the model: no control
    rec = instr.Recorder(order=order or None, workers=case['workers'], delay=case.get('delay', 0), linger=case.get('linger', 0))
    obs = instr.call(rec, call(case, files, tmp / 'out.tif'))
    obs['controlled'] = bool(order) and obs['followed']
    if obs['outcome'] == 'return':
        c0, m0, a0 = pipe.content(tmp / 'ref.tif')
        c1, m1, a1 = pipe.content(tmp / 'out.tif')
        same_shape = a0.shape == a1.shape
        d = np.abs(a0.astype('float64') - a1.astype('float64')) if same_shape else np.array([np.inf])
        d = d[~np.isnan(d)] if same_shape and np.array_equal(np.isnan(a0), np.isnan(a1)) else np.array([np.inf])
        # statistics are summed in the order that tiles finish
        if pan:
            c0 = c1 = []
        obs.update(content=c1, ref=c0, mask_content=m1, mask_ref=m0, maxdiff=float(d.max(initial=0)), difftol=1e-6 if pan else 0.0)
    return obs


def main(c):
    if c.replay_case is None:
        models(c, 0)
    n = 10 if c.quick else 120
    cases = []
    # name, kind, tiles, stats, bands, masked, ovw, workers
    for name, kind, tiles, stats, bands, masked, ovw, workers, k, extra in (
        ('ortho-all', 'ortho', 6, 1, 3, True, True, 6, 2, {}),
        ('ortho-nodata', 'ortho', 6, 1, 2, False, False, 6, 1, {}),
        ('ortho-few-workers', 'ortho', 6, 1, 1, True, False, 2, 1, {}),
        ('ortho-undistort', 'ortho', 6, 1, 2, True, False, 6, 1, dict(cam='brown', dtype='float32')),
        ('ortho-band-by-band', 'perband', 6, 1, 2, True, True, 12, 2, {}),
        ('ortho-band-by-band-nodata', 'perband', 6, 1, 3, False, True, 6, 1, dict(dtype='uint16')),
        ('pan', 'pan', 6, 1, 3, True, True, 6, 1, {}),
        ('pan-nodata', 'pan', 6, 1, 2, False, False, 7, 1, dict(weights=[1.0, 2.0])),
        ('pan-stats', 'pan', 3, 3, 2, True, False, 3, 1, {}),
    ):
        if c.replay_case is not None:
            cases = [c.replay_case['case']]
            break
        text = cfg(kind, tiles, workers, stats=stats, bands=bands, masked=masked, ovw=ovw, log=True)
        text += f'CONSTANT Name = "{name}"\nINVARIANT Emit\n'
        got = c.generate('C03Gen', cfg=text, simulate=(n * k, 400))
        for m, g in enumerate(got):
            g.update(extra)
            g['delay'] = [0, 0.001, 0.003][m % 3]
        cases += got
    # without control, with the default pool and with lingering jobs
    if c.replay_case is None:
        for kind in ('ortho', 'perband', 'pan'):
            for masked in (True, False):
                for workers in (0, 4):
                    base = dict(name=f'{kind}-free', kind=kind, tiles=6, stat_tiles=1, bands=2, masked=masked, ovw=True)
                    cases.append(dict(base, workers=workers, delay=0.002, linger=0.001))
        cases.append(dict(base, name='ortho-cog', kind='ortho', driver='cog', masked=False, workers=0, delay=0.002, linger=0.0))
        cases.append(dict(base, name='pan-one-dataset', kind='pan', same=True, tiles=3, stat_tiles=3, masked=False, workers=6, delay=0.004, linger=0.0))
    runs = c.drive(drive, cases, timeout=40)
    c.judge('C03Trace', runs, cfg='CONSTANT Failing <- C03Failing')
    c.nontrivial = {str(r['case'].get('order')) + r['case']['name'] for r in runs}
    c.extra['schedules_controlled'] = sum(bool(r['obs'].get('controlled')) for r in runs)
    c.extra['schedules'] = len(runs)
    c.extra['events'] = sum(len(r['obs'].get('log', [])) for r in runs)
    c.rule = 'schedules of the jobs, taken from random behaviours of Pipeline.tla and enforced in the thread pool'
    c.level = 'model_checking'
    c.assumptions = [
        'dataset access is observed at the rasterio methods, thread pools at concurrent.futures.ThreadPoolExecutor',
        'values of pan-sharpened images may differ by rounding of the statistics (1e-6)',
    ]
