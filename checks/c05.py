"""C05: performance and encoding options do not change ortho content."""
import os
import warnings

import fmt
import numpy as np
import rasterio as rio


def drive(case, tmp):
    runs = []
    ci, differ, base = None, True, None
    os.chdir(tmp)
    for k, v in enumerate(case['variants']):
        d = tmp / f'v{k}'
        d.mkdir()
        c = dict(case['content'], **v)
        r, a, m = fmt.attempt(c, d)
        r['options'] = v
        # differences from the first variant: pixels valid in both, and pixels valid in one of them
        if a is not None:
            base = (a, m) if base is None else base
            if a.shape == base[0].shape:
                both = m & base[1]
                e = np.abs(a.astype('float64') - base[0]) * both
                tol = np.abs(base[0]).max() * 2e-6 if a.dtype.kind == 'f' else 0
                r.update(diff=float(e.max()), n_diff=int((e > tol).sum()), n_fringe=int((m != base[1]).sum()))
            else:
                r.update(diff=-1.0, n_diff=-1, n_fringe=-1)
        runs.append(r)
        if k == 0:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with rio.open(d / 'src.tif') as im:
                    ci = [x.name for x in im.colorinterp]
            differ = a is not None and len({x.tobytes() for x in a}) == len(a)
        for f in d.iterdir():
            f.unlink()
    return dict(outcome='ok', runs=runs, src_colorinterp=ci, bands_differ=differ)


def main(c):
    cases = c.generate('C05Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C05Trace', runs, cfg='CONSTANT Failing <- C05Failing')
    n = sum(len(r['obs'].get('runs', [])) for r in runs)
    c.evaluations = n
    c.nontrivial = set(range(n))
    c.extra['contents'] = len(cases)
    c.rule = 'for each content of C05Gen, all its variants must give one and the same georeferencing, validity and values'
    c.level = 'exploration'
    c.assumptions = ['sources without pixels that hold the nodata value', 'GDAL reads back what it wrote with lossless compression']
