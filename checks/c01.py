"""C01: each valid ortho pixel shows the source at the projection of its ground point (Ortho.tla)."""
import scene


def drive(case, tmp):
    res = scene.process(case, tmp)
    if res['outcome'] != 'ok':
        return res
    meta, pts = scene.points(case, res['path'], 240, 7)
    return dict(outcome='ok', meta=meta, points=pts, warned=res['warned'])


def main(c):
    cases = c.generate('C01Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C01Trace', runs, cfg='CONSTANT Failing <- C01Failing')
    n = sum(1 for r in runs for p in r['obs'].get('points', []) if p['valid'])
    c.evaluations = n
    c.nontrivial = set(range(n))
    c.extra['scenes'] = len(cases)
    c.rule = 'valid ortho pixels of the scenes of C01Gen; a pixel is judged against the projection of Ortho.tla / Camera.tla'
    c.level = 'exploration'
    c.assumptions = ['PROJ coordinate transformations', 'OpenCV interpolates within 1/32 pixel of the position it is given']
