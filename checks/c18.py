"""C18: pan-sharpened images have the pan grid, the common area and the requested bands."""
import pan


def main(c):
    cases = c.generate('C18Gen', 'CONSTANT Cases <- GenCases')
    runs = c.drive(pan.drive, cases, timeout=120)
    c.judge('C18Trace', runs, cfg='CONSTANT Failing <- C18Failing')
    c.evaluations = len(runs)
    c.nontrivial = {i for i, r in enumerate(runs) if r['obs'].get('error') == ''}
    c.level = 'exploration'
    c.rule = 'relative placements, resolutions, CRSs, band selections and validity patterns of C18Gen.tla; PanSharp.tla gives the grid, bands and validity, or says that the request is rejected'
    c.assumptions += ['images are north-up', 'pixels whose centre lies on the boundary of two multispectral pixels are not judged', 'interpolation other than nearest neighbour is taken from GDAL']
