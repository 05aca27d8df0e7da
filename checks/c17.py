"""C17: pan-sharpened values follow the Gram-Schmidt model with global statistics."""
import pan

MODEL = 'SPECIFICATION Spec\nCONSTANTS\n Pixels <- MCPixels\n Tilings <- MCTilings\nINVARIANT Exact\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'


def main(c):
    c.model('PanStatsMC', MODEL)
    cases = c.generate('C17Gen', 'CONSTANT Cases <- GenCases')
    runs = c.drive(pan.drive, cases, timeout=120)
    c.judge('C17Trace', runs, cfg='CONSTANT Failing <- C17Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['obs'].get('error') == ''}
    c.rule = 'values, weights, validity patterns, geometries and tile splits of C17Gen.tla; PanSharp.tla gives the sharpened values'
    c.assumptions += ['averages of pan pixels that are not aligned with multispectral pixels, and interpolation other than nearest neighbour, are taken from GDAL']
