"""C14: a CSV exterior parameter table means the same in every layout."""
import io
import math

import world

DELIM = dict(tab='\t')
QUOTE = dict(none='', single="'", double='"')
HEAD = dict(lower=str.lower, upper=str.upper, title=str.title, padded=lambda s: f' {s.title()}  ')
ANGLES = ('omega', 'phi', 'kappa', 'roll', 'pitch', 'yaw')
TEXT = ('filename', 'camera', 'note')


def render(case, plain=False):
    """The bytes of a document."""
    d = ',' if plain else DELIM.get(case['delim'], case['delim'])
    q = '' if plain else QUOTE[case['quote']]
    sep = d + (' ' if case['pad'] and not plain else '')

    def cell(s, text):
        on = case['quoted'] == 'all' or (case['quoted'] == 'text' and text) or d in s
        if plain:
            return f'"{s}"' if d in s else s
        return q + s + q if on and q else s

    def value(row, f):
        if f == 'note':
            return 'ok'
        if f == 'accuracy':
            return '0.25'
        v = row[f]
        if f == 'filename' and not plain:
            v = case['prefix'] + v
        if f in ANGLES and case['unit'] == 'radians' and not plain:
            v = repr(math.radians(float(v)))
        return v

    lines = []
    if plain or case['named'] in ('header', 'both'):
        names = case['order'] if plain else [HEAD[case['head']](f) for f in case['order']]
        lines.append(sep.join(cell(f, True) for f in names))
    lines += [sep.join(cell(value(row, f), f in TEXT) for f in case['order']) for row in case['table']]
    if case['damage'] == 'short':
        lines[-1] = sep.join(lines[-1].split(sep)[:4])
    elif case['damage'] in ('text', 'blank'):
        numeric = [k for k, f in enumerate(case['order']) if f not in TEXT]
        cells = [cell(value(case['table'][-1], f), f in TEXT) for f in case['order']]
        cells[numeric[1]] = q + 'n/a' * (case['damage'] == 'text') + q
        lines[-1] = sep.join(cells)
    elif case['damage'] == 'empty':
        lines = []
    elif case['damage'] == 'words':
        lines = ['This is not a table', 'of any kind'] * 3
    term = 'lf' if plain else case['term']
    nl = '\r\n' if term.startswith('crlf') else '\n'
    return nl.join(lines) + ('' if term.endswith('none') else nl + (nl if term.endswith('blank') else ''))


def read(file, case, plain=False):
    from orthority.param_io import CsvReader

    kw = {}
    if not plain:
        if case['named'] in ('fieldnames', 'both'):
            kw['fieldnames'] = [HEAD[case['head']](f) for f in case['order']]
        if case['unit'] == 'radians':
            kw['radians'] = True
    reader = CsvReader(file, crs=case['crs'], **kw)
    # reading does not use up the reader
    first = reader.read_ext_param()
    assert first == reader.read_ext_param(), 'a second read differs'
    return [
        dict(filename=k, xyz=[repr(float(x)) for x in v['xyz']], opk=[repr(float(x)) for x in v['opk']], camera='none' if v['camera'] is None else v['camera'])
        for k, v in first.items()
    ]


def drive(case, tmp):
    import fsspec

    path = tmp / 'ext.csv'
    path.write_bytes(render(case).encode())
    plain = tmp / 'plain.csv'
    plain.write_bytes(render(case, True).encode())
    out = dict(outcome='ok', error='', ref_error='', params=[], ref=[])
    src = case['source']
    handle = None
    try:
        if src == 'path':
            file = path
        elif src == 'uri':
            file = path.as_uri()
        elif src == 'openfile':
            file = fsspec.open(str(path), 'rt')
        elif src == 'stringio':
            file = io.StringIO(path.read_bytes().decode())
        else:
            file = handle = open(path, 'rt')
        try:
            out['params'] = read(file, case)
        except Exception as ex:
            out['error'] = type(ex).__name__
            out['message'] = str(ex)[:200]
    finally:
        if handle:
            handle.close()
    if case['ok']:
        try:
            out['ref'] = read(plain, case, True)
        except Exception as ex:
            out['ref_error'] = f'{type(ex).__name__}: {ex}'
    return out


MODEL = 'SPECIFICATION Spec\nCONSTANTS\n Tables <- MCTables\n Orders <- MCOrders\nINVARIANTS LayoutFree RejectedIff\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'


def main(c):
    c.model('CsvMC', MODEL.replace('SPECIFICATION Spec', 'SPECIFICATION FairSpec'))
    cases = c.generate('C14Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C14Trace', runs, cfg='CONSTANT Failing <- C14Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['case']['ok']}
    c.rule = 'tables and layouts of C14Gen.tla (delimiter, quotes, header, field order, line ends, units, prefix, source); Csv.tla gives the meaning'
