"""C24: evaluation on arrays"""
from .stable import *
from .plunge import Plunge, SLICES
from .rates import *
import numpy as np
from symk import shim

NAMES = ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam', 'lamb', 'lamc', 'lamd')
TIMES = [V(n) for n in NAMES[4:]]


def oa(v, shape=None):
    r = np.empty(len(v), dtype=object)
    r[:] = v
    return (r if shape is None else r.reshape(shape)).view(shim.SArr)


def table(j, name, f):
    """values of f on arrays and at each time alone"""
    [f(t) for t in TIMES]           # sign decisions made on the way are remembered and give shorter expressions
    one = [f(t) for t in TIMES]
    for t, v in zip(TIMES, one):
        if isinstance(v, np.ndarray) and v.ndim:
            return j.fail(name, 'is an array for a single time')
    for shape in (None, (2, 2)):
        arg = oa(TIMES, shape)
        keep = list(arg.flat)
        got = f(arg)
        if not isinstance(got, np.ndarray) or got.shape != arg.shape:
            return j.fail(name, 'has the wrong shape')
        same(j, '%s on an array%s' % (name, shape or ''), got, oa(one, shape))
        if any(a is not b for a, b in zip(keep, arg.flat)):
            return j.fail(name, 'changes the times')
    got = f(oa(TIMES[:1]))
    if not isinstance(got, np.ndarray) or got.shape != (1,):
        return j.fail(name, 'has the wrong shape for one time')
    same(j, '%s on an array of one' % name, got, oa(one[:1]))
    back = oa(TIMES[::-1])
    same(j, '%s on the reversed array' % name, f(back), oa(one[::-1]))


def orbit(j, o, ph, units=True):
    for n, f in zip('t r theta phi'.split(), o.trajectory()):
        table(j, n, f)
    for n, f in zip('t r theta phi'.split(), o.trajectory(ph)):
        table(j, n + ', given phases', f)
    for n, f in zip('t_r t_theta phi_r phi_theta'.split(), o.trajectory_deltas()):
        table(j, 'delta ' + n, f)
    for n, f in zip('t r theta phi'.split(), o.four_velocity()):
        table(j, 'u_' + n, f)
    if units:
        for n, f in zip('tr', o.trajectory(distance_units='km', time_units='days')):
            table(j, n + ' in units', f)


def samples(m):
    return [dict(s, M=q(m.rnd, 1, 9), mu=q(m.rnd, 0, 1), lamb=q(m.rnd, -9, 9), lamc=q(m.rnd, -9, 9), lamd=q(m.rnd, -9, 9), **{k + 'b': q(m.rnd, -5, 5) for k in NAMES[:4]})
            for s in phase_samples(m, 1)]


def stable(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    ph, other = phases(), phases('b')

    def fn():
        k = constants(j, m)
        facts_constants(j, m, *k)
        rr, w = roots(j, m, k)
        relations(j, m, k, w)
        j.ex.merge = True
        orbit(j, j.P.stable.StableOrbit(m.a, m.p, m.e, m.x, other, V('M'), V('mu')), ph)
    j.check_sides = False
    j.explore(fn, m.facts + [lt(0, V('M'))], samples(m), m.names + NAMES, defs=m.defs)


def plunge(j):
    m = Plunge(j.name, j.seed, 6)
    ph, other = phases(), phases('b')

    def fn():
        m.register(j)
        S.decide(X.lt(m.L.n, X.const(0)))
        j.ex.merge = True
        orbit(j, j.P.plunge.PlungingOrbit(m.a, m.E, m.L, m.Q, other, V('M'), V('mu')), ph)
    j.check_sides = False
    j.explore(fn, m.facts + [ne(m.L, 0), lt(0, V('M'))], samples(m), m.names + NAMES, defs=m.defs)


def numerical(j):
    m = Stable(j.name, j.seed)
    t, r, th, f = (lambda v: fn('exp', v)), (lambda v: 3 + v * v), (lambda v: sin(v)), (lambda v: v ** 3 - v)
    patch(j.P, j.P.stable.stable_trajectory, lambda *a, **k: tuple((lambda v, g=g: _each(g, v)) for g in (t, r, th, f)))
    ph = phases()

    def run():
        j.ex.merge = True
        o = object.__new__(j.P.orbit.Orbit)
        o.stable, o.M, o.mu, o.initial_phases, o.a, o.p, o.e, o.x, o.E, o.L, o.Q = True, None, None, ph, m.a, m.p, m.e, m.x, V('E'), V('L'), V('Q')
        o.upsilon_r, o.upsilon_theta = V('Yr'), V('Yth')
        for n, g in zip('t r theta phi'.split(), o.numerical_four_velocity()):
            table(j, 'numerical u_' + n, g)
    j.check_sides = False
    j.explore(run, m.domain, [dict(s, E=Fraction(1, 2), L=Fraction(2), Q=Fraction(1), Yr=Fraction(1), Yth=Fraction(2)) for s in samples(m)], m.names + NAMES)


def _each(g, v):
    return oa([g(x) for x in v.flat], v.shape) if isinstance(v, np.ndarray) and v.ndim else g(v)


def jobs(tier, seed):
    return [(n, stable) for n in slices()] + [(n, plunge) for n in SLICES] + [('kerr ecc pro numerical', numerical)]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'arrays of one and four arbitrary times, in both orders and in the shape (2, 2); stable: all 0 <= a < 1, p above the separatrix, 0 <= e < 1, x != 0 (16 slices with exact special values); plunging: all 0 < a < 1, 0 < E < 1, L != 0, Q >= 0 (6 slices); every time and initial phases',
    'outside': 'longer arrays and arrays of integers (only the replayed points use them); the numerical accuracy of scipy.special and the rounding differences between numpy scalar and vector routines',
    'stubs': ['separatrix: an unknown number between 1 and p', 'scipy elliptic functions act entry by entry', 'numerical four-velocity: an arbitrary smooth trajectory in place of the orbit'],
}
