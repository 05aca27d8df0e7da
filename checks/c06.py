"""C06: invalid output pixels are always distinguishable from valid ones."""
import fmt


def drive(case, tmp):
    runs, base = [], None
    for k, v in enumerate(case['variants']):
        d = tmp / f'v{k}'
        d.mkdir()
        r, a, m = fmt.attempt(dict(case['content'], **v), d)
        if a is not None:
            base = m if base is None else base
            r['n_unlike'] = int((m != m[:1]).sum())
            r['n_unlike_base'] = int((m != base).sum()) if m.shape == base.shape else 10**9
        runs.append(r)
        for f in d.iterdir():
            f.unlink()
    return dict(outcome='ok', runs=runs)


def main(c):
    cases = c.generate('C06Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C06Trace', runs, cfg='CONSTANT Failing <- C06Failing')
    n = sum(len(r['obs'].get('runs', [])) for r in runs)
    c.evaluations = n
    c.nontrivial = set(range(n))
    c.extra['contents'] = len(cases)
    c.rule = 'each content of C06Gen is encoded in all ways; the mask / nodata value must follow Profile.tla and all files must have one validity'
    c.level = 'exploration'
    c.assumptions = ['images without valid pixels that hold the nodata value', 'JPEG with an explicitly disabled mask is left out: its nodata value is lossy']
