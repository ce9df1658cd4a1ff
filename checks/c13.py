"""C13: the Kerr metric"""
from .common import *


def facts(a, r, th):
    return [le(a * a, 1), ne(delta(r, a), 0), ne(r * r + a * a * cos(th) ** 2, 0)]


def job(j):
    a, r, th, t, ph = (V(k) for k in ('a', 'r', 'theta', 't', 'phi'))
    v = [V('v%d' % k) for k in range(4)]
    rnd = random.Random(j.seed)
    if j.name == 'spin 0':
        a = K(0)
    lo, hi = {'prograde spin': (0, 1), 'negative spin': (-1, 0), 'spin 0': (0, 0)}[j.name]
    fs = [le(a * a, 1), ne(delta(r, a), 0), ne(sigma(r, cos(th), a), 0)]
    if j.name == 'prograde spin':
        fs.append(lt(0, a))
    if j.name == 'negative spin':
        fs.append(lt(a, 0))
    smp = []
    for _ in range(12):
        s = {'a': q(rnd, lo, hi) if lo != hi else Fraction(0), 'r': q(rnd, *rnd.choice([(0, 1), (2, 20), (-3, 0)])), 'theta': q(rnd, 0, 3), 't': q(rnd, -5, 5), 'phi': q(rnd, -9, 9)}
        s.update({'v%d' % k: q(rnd, -3, 3) for k in range(4)})
        smp.append(s)
    smp.append(dict(smp[0], theta=Fraction(0)))
    names = ('a', 'r', 'theta', 't', 'phi', 'v0', 'v1', 'v2', 'v3')
    st2, ct2 = sin(th) ** 2, cos(th) ** 2
    S_, D = r * r + a * a * ct2, delta(r, a)
    ref = [[-1 + 2 * r / S_, 0, 0, -2 * a * r * st2 / S_], [0, S_ / D, 0, 0], [0, 0, S_, 0],
           [-2 * a * r * st2 / S_, 0, 0, ((r * r + a * a) ** 2 - D * a * a * st2) * st2 / S_]]

    def metric():
        g = j.P.spacetime.KerrSpacetime(a).metric(t, r, th, ph)
        for i in range(4):
            for k in range(4):
                j.zero('g[%d,%d]' % (i, k), lift(g[i][k]).__class__ and X.sub(lift(g[i][k]), lift(ref[i][k])))

    def norm():
        n = j.P.spacetime.KerrSpacetime(a).norm(t, r, th, ph, v)
        w = sum((v[i] * ref[i][k] * v[k] for i in range(4) for k in range(4)), K(0))
        j.zero('norm', n - w)

    def norm_array():
        import numpy as np
        n = j.P.spacetime.KerrSpacetime(a).norm(t, r, th, ph, np.array(v, dtype=object))
        w = sum((v[i] * ref[i][k] * v[k] for i in range(4) for k in range(4)), K(0))
        j.zero('norm of an array', n - w)

    def horizons():
        s = j.P.spacetime.KerrSpacetime(a)
        for n in ('inner', 'outer'):
            h = Sym(lift(getattr(s, n + '_horizon')))
            j.zero(n + ' horizon is a root', delta(h, a))
        j.true('order', le(s.inner_horizon, 1))
        j.true('order', le(1, s.outer_horizon))
    j.explore(metric, fs, smp, names, scope='metric')
    j.explore(norm, fs, smp, names, scope='norm')
    j.explore(norm_array, fs, smp, names, scope='norm')
    j.explore(horizons, fs[:1] + fs[3:], smp, names, scope='horizons')


def jobs(tier, seed):
    return [('prograde spin', job), ('negative spin', job), ('spin 0', job)]


META = {
    'budget': {'quick': 60, 'thorough': 200},
    'bounds': 'all real |a| <= 1, r, theta off the singular surfaces, all four-vectors; no further bound',
    'outside': 'rounding; numpy is represented by its real-arithmetic semantics',
    'assumptions': ['the reference metric is the textbook Boyer-Lindquist form with M=1, signature -+++'],
}
