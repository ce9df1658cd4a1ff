"""C22: visibility of points"""
from .common import *
import numpy as np


def job(j):
    a, el, az = V('a'), V('elevation'), V('azimuth')
    rnd = random.Random(j.seed)
    n = int(j.name[0])
    pts = [[V('%s%d' % (c, k)) for c in 'xyz'] for k in range(n)]
    names = ('a', 'elevation', 'azimuth') + tuple('%s%d' % (c, k) for k in range(n) for c in 'xyz')
    fs = [le(0, a), lt(a, 1)] if 'positive' in j.name else [lt(-1, a), lt(a, 0)]
    # axis-aligned directions are concrete slices with exact sines; the general direction is fully symbolic
    smp = []
    for k in range(24 * n):
        s = {'a': q(rnd, 0, 1) * (1 if 'positive' in j.name else -1), 'elevation': q(rnd, -180, 180), 'azimuth': q(rnd, -180, 360)}
        for m in range(n):
            R = rnd.choice([Fraction(1, 2), Fraction(3, 2), 2, 3, 8])
            for c in 'xyz':
                s['%s%d' % (c, m)] = q(rnd, -1, 1) * R
        smp.append(s)
    e_, z_ = el * PI / 180, az * PI / 180
    nv = [cos(e_) * cos(z_), cos(e_) * sin(z_), sin(e_)]
    rh = 1 + sqrt(1 - a * a)

    def fn():
        orb = object.__new__(j.P.orbit.Orbit)
        orb.a = a
        P = np.empty((n, 3), dtype=object)
        for k in range(n):
            for c in range(3):
                P[k, c] = pts[k][c]
        out = orb.is_visible(P, el, az)
        if np.shape(out) != (n,):
            return j.fail('one answer per point', 'shape %r' % (np.shape(out),))
        for k in range(n):
            d = sum((pts[k][c] * nv[c] for c in range(3)), K(0))
            r2 = sum((pts[k][c] ** 2 for c in range(3)), K(0))
            proj = [pts[k][c] - d * nv[c] for c in range(3)]
            p2 = sum((v * v for v in proj), K(0))
            want = X.cand(lt(rh, sqrt(r2)), X.cor(le(0, d), lt(rh, sqrt(p2))))
            got = out[k]
            j.equiv('point %d of %d' % (k + 1, n), got if isinstance(got, (bool, SymBool)) else bool(got), want, timeout=10)
    j.explore(fn, fs, smp, names, scope='%d points' % n, max_paths=600)


def jobs(tier, seed):
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 5)
    return [('%d points, %s spin' % (n, s), job) for n in ns for s in ('positive', 'negative')]


META = {
    'budget': {'quick': 90, 'thorough': 300},
    'bounds': 'lists of 1 to 3 points (thorough: also 5), every |a| < 1, every viewing direction and every position',
    'outside': 'rounding; longer lists',
    'assumptions': ['the plane and the disc of the property are taken in the Cartesian coordinates of the plot'],
}
