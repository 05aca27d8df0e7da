"""C07: output format follows the documented configuration rules."""
import fmt
import numpy as np


class FakeImage:
    """Stands in for an image too large to make."""

    def __init__(self, size):
        self.width, self.height = size
        self.shape = (self.height, self.width)
        self.count = 1
        self.levels = []

    def build_overviews(self, factors, *args, **kwargs):
        self.levels += [int(f) for f in factors]


def levels(case):
    from orthority import common

    im = FakeImage(case['size'])
    try:
        common.build_overviews(im)
    except (AttributeError, TypeError):
        # the function is not there or uses more of the image than this stand-in has
        return dict(outcome='skip')
    return dict(outcome='ok', levels=im.levels)


def drive(case, tmp):
    if case['kind'] == 'levels':
        return levels(case)
    r, a, m = fmt.attempt(case, tmp)
    if case['name'] == 'conversion' and r['outcome'] == 'ok':
        r0, a0, m0 = fmt.attempt(dict(case, dtype='float64'), tmp, name='ref.tif')
        if r0['outcome'] != 'ok':
            return r0
        both = m & m0
        v, x = a0[both], a[both]
        r['pairs'] = sorted({(float(p), float(q)) for p, q in zip(v, x)})
        step = max(1, len(r['pairs']) // 150)
        r['pairs'] = r['pairs'][::step]
    return r


def main(c):
    c.model('ProfileMC', 'SPECIFICATION Spec\nINVARIANT Consistent\nINVARIANT LevelsSmall\nCHECK_DEADLOCK FALSE')
    cases = c.generate('C07Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C07Trace', runs, cfg='CONSTANT Failing <- C07Failing')
    c.nontrivial = set(range(sum(r['obs'].get('outcome') != 'skip' for r in runs)))
    c.rule = 'the cross product of output settings, creation options, image sizes and conversions of C07Gen; files judged by Profile.tla'
    c.level = 'exploration'
    c.assumptions = ['12 bit JPEG and the defaults of the COG driver depend on the GDAL build and are left open']
