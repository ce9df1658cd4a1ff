"""C23: numerical four-velocity"""
from .common import *


def job(j):
    a, lam, h = V('a'), V('lam'), V('dx')
    rnd = random.Random(j.seed)
    coef = {c: [V('%s%d' % (c, k)) for k in range(5)] for c in ('t', 'r', 'h', 'p')}
    names = ('a', 'lam', 'dx') + tuple('%s%d' % (c, k) for c in coef for k in range(5))
    def poly(c):
        return lambda x: sum((coef[c][k] * x ** k for k in range(5)), K(0))

    def dpoly(c):
        return sum((k * coef[c][k] * lam ** (k - 1) for k in range(1, 5)), K(0))
    fs = [lt(-1, a), lt(a, 1), ne(h, 0)]
    away = [ne(poly('r')(lam) ** 2 - 2 * poly('r')(lam) + a * a, 0), ne(poly('r')(lam), 0)]
    smp = []
    for _ in range(10):
        s = {'a': q(rnd, -1, 1), 'lam': q(rnd, -2, 2), 'dx': q(rnd, -1, 1)}
        s.update({'%s%d' % (c, k): q(rnd, -3, 3) + (20 if (c, k) == ('r', 0) else 0) for c in coef for k in range(5)})
        smp.append(s)

    ph = (V('q0'), V('q1'), V('q2'), V('q3'))

    def make(seen):
        orb = object.__new__(j.P.orbit.Orbit)
        orb.a, orb.initial_phases = a, ph
        orb.E, orb.L, orb.Q = V('E'), V('L'), V('Q')

        def trajectory(initial_phases=None, *args, **kw):
            seen.append(ph if initial_phases is None else initial_phases)
            return tuple(poly(c) for c in coef)
        orb.trajectory = trajectory
        return orb

    def run(dx, phases, hh):
        def fn():
            seen = []
            kw = {} if dx is None else {'dx': dx}
            if phases is not None:
                kw['initial_phases'] = phases
            us = make(seen).numerical_four_velocity(**kw)
            want = ph if phases is None else phases
            j.true('uses the initial phases', all(tuple(s) == tuple(want) for s in seen) and bool(seen))
            Sg = poly('r')(lam) ** 2 + a * a * cos(poly('h')(lam)) ** 2
            for c, u in zip(coef, us):
                j.zero('u_' + c, u(lam) * Sg - dpoly(c))
            if hasattr(j.P.orbit.Orbit, '_numerical_four_velocity_norm'):
                del seen[:]
                n = make(seen)._numerical_four_velocity_norm(**kw)(lam)
                j.true('norm: uses the initial phases', all(tuple(s) == tuple(want) for s in seen) and bool(seen))
                r, s2 = poly('r')(lam), 1 - cos(poly('h')(lam)) ** 2
                D = r * r - 2 * r + a * a
                ut, ur, uh, up = [dpoly(c) for c in coef]
                g = (2 * r / Sg - 1) * ut ** 2 - 4 * a * r * s2 / Sg * ut * up + s2 * (r * r + a * a + 2 * a * a * r * s2 / Sg) * up ** 2 + Sg / D * ur ** 2 + Sg * uh ** 2
                j.zero('norm', n * Sg ** 2 - g)
        return fn
    j.explore(run(h, None, h), fs + away, smp, names, scope='step given')
    j.explore(run(h, (V('w0'), V('w1'), V('w2'), V('w3')), h), fs + away, smp, names, scope='step and phases given')
    j.explore(run(None, None, None), fs[:2] + away, smp, names, scope='default step')


def norm_job(j):
    """sextic trajectories, for which the finite difference depends on the step: the norm is that of the numerical velocity for the step and phases asked for"""
    a, lam, h = V('a'), V('lam'), V('dx')
    rnd = random.Random(j.seed)
    names = ('a', 'lam', 'dx', 't6', 'r6', 'h6', 'p6')
    smp = [dict({'a': q(rnd, -1, 1), 'lam': q(rnd, -2, 2), 'dx': q(rnd, -1, 1)}, **{n: q(rnd, 1, 3) for n in names[3:]}) for _ in range(8)]
    if not hasattr(j.P.orbit.Orbit, '_numerical_four_velocity_norm'):
        return
    fs = [(lambda x, c=c: V(c + '6') * x ** 6 + (20 if c == 'r' else x)) for c in 'trhp']
    ph, other = (1, 2, 3, 4), (5, 6, 7, 8)

    def fn(kw):
        o = object.__new__(j.P.orbit.Orbit)
        o.a, o.initial_phases, o.E, o.L, o.Q = a, ph, V('E'), V('L'), V('Q')
        o.trajectory = lambda initial_phases=None, *args, **k: fs if tuple(ph if initial_phases is None else initial_phases) == tuple(kw.get('initial_phases', ph)) else [lambda x: K(7)] * 4
        n = o._numerical_four_velocity_norm(**kw)(lam)
        u = [f(lam) for f in o.numerical_four_velocity(**kw)]
        j.zero('norm', n - j.P.spacetime.KerrSpacetime(a).norm(*[f(lam) for f in fs], u))
    r = fs[1](lam)
    facts = [lt(-1, a), lt(a, 1), ne(h, 0), lt(2, r)]
    j.check_sides = False
    for scope, kw in (('norm: step given', {'dx': h}), ('norm: step and phases given', {'dx': h, 'initial_phases': other}), ('norm: default step', {})):
        j.explore(lambda kw=kw: fn(kw), facts, smp, names, scope=scope)


def jobs(tier, seed):
    return [('quartic trajectories', job), ('norm', norm_job)]


META = {
    'budget': {'quick': 90, 'thorough': 200},
    'bounds': 'all quartic trajectories, |a| < 1, all times and all step sizes other than 0',
    'outside': 'rounding (dominant for tiny steps); trajectories that are not polynomials of degree <= 4',
    'stubs': ['Orbit.trajectory returns four polynomials with symbolic coefficients'],
}
