"""C02: extent, grid and validity of orthos (Ortho.tla)."""
import numpy as np

import scene
from vf import num


def far_mutator(case):
    """Changes DEM cells that are well outside the footprint, inside the DEM."""
    kind = case.get('far')
    if not kind:
        return None

    def corner(z):
        # cells in the bounds of the footprint, and well outside of it
        cam = scene.make_camera(dict(case, cam=dict(case['cam'], distort=True)))
        d = case['dem']
        w, h = cam.im_size
        q = cam.pixel_to_world_z(np.array([[0.0, 0], [w - 1, 0], [w - 1, h - 1], [0, h - 1]]).T, num(d['z0']))[:2]
        if np.cross(q[:, 1] - q[:, 0], q[:, 2] - q[:, 1]) < 0:
            q = q[:, ::-1]
        x = num(d['x0']) + (np.arange(d['nx']) + 0.5) * num(d['rx'])
        y = num(d['y0']) - (np.arange(d['ny']) + 0.5) * num(d['ry'])
        xy = np.array(np.meshgrid(x, y))
        dist = np.full(z.shape, -np.inf)
        for k in range(4):
            e = q[:, (k + 1) % 4] - q[:, k]
            e = np.array([e[1], -e[0]]) / np.hypot(*e)  # outwards
            dist = np.maximum(dist, e[0] * (xy[0] - q[0, k]) + e[1] * (xy[1] - q[1, k]))
        z = z.copy()
        z[dist > 25] = z.max() + 400.0
        return z

    if kind == 'corner':
        return corner

    def mutate(z):
        z = z.copy()
        ny, nx = z.shape
        v = dict(mountain=z.max() + 60.0, pit=z.min() - 300.0, invalid=num(case['dem']['nodata']), peak=z.max() + 400.0)[kind]
        z[:6, :] = v
        z[-6:, :] = v
        z[:, :6] = v
        z[:, -6:] = v
        return z

    return mutate


def drive(case, tmp):
    res = scene.process(case, tmp, mutate=far_mutator(case))
    if res['outcome'] != 'ok':
        return res
    with scene.rio.open(res['path']) as im:
        t = im.transform
    meta, pts = scene.points(case, res['path'], 350, 11)
    # all of the border rows and columns
    b = border_points(case, res['path'])
    pts += b
    # ortho resolution in source pixels
    ratio = approx_ratio(case, t)
    out = dict(outcome='ok', meta=meta, points=pts, warned=res["warned"], warnings=res["warnings"], ratio=ratio)
    return out


def approx_ratio(case, t):
    cam = scene.make_camera(case)
    z = num(case['dem']['z0'])
    w, h = cam.im_size
    c = np.array([[w / 2, w / 2 + 1, w / 2], [h / 2, h / 2, h / 2 + 1]])
    xyz = cam.pixel_to_world_z(c, z)
    g = min(np.hypot(*(xyz[:2, 1] - xyz[:2, 0])), np.hypot(*(xyz[:2, 2] - xyz[:2, 0])))
    return float(max(abs(t.a), abs(t.e)) / g)


def border_points(case, path):
    with scene.rio.open(path) as im:
        W, H = im.width, im.height
    ji = [(c, r) for c in range(0, W, 2) for r in (0, H - 1)] + [(c, r) for r in range(0, H, 2) for c in (0, W - 1)]
    return scene.points_at(case, path, ji)[1]


def main(c):
    cases = c.generate('C02Gen', cfg='CONSTANT Cases <- GenCases')
    runs = c.drive(drive, cases)
    c.judge('C02Trace', runs, cfg='CONSTANT Failing <- C02Failing')
    n = sum(len(r['obs'].get('points', [])) for r in runs)
    c.evaluations = n
    c.nontrivial = set(range(n))
    c.extra['scenes'] = len(cases)
    c.rule = 'ground points in and around the orthos of the scenes of C02Gen; validity judged outside a margin of the footprint edge'
    c.level = 'exploration'
    c.assumptions = ['PROJ coordinate transformations', 'validity is left open within a few pixels of the footprint and DEM edges']
