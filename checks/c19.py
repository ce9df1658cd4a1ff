"""C19: physical units on orbits scale the dimensionless results"""
from .common import *
from .stable import *
from .plunge import Plunge
from .plunge import SLICES as PSLICES

DIST = {'mks': 'distance_in_meters', 'cgs': 'distance_in_cm', 'km': 'distance_in_km', 'au': 'distance_in_au'}
TIME = {'mks': 'time_in_seconds', 'cgs': 'time_in_seconds', 'days': 'time_in_days'}
# (metres, seconds) per solar mass in SI as the units module states them (C20 compares its values with SI)
EXTRA = {'M': Fraction(10), 'mu': Fraction(2), 'lam': Fraction(3, 7), 'q_t': Fraction(1, 3), 'q_r': Fraction(5, 7), 'q_theta': Fraction(9, 5), 'q_phi': Fraction(2, 3)}


def refused(j, name, f):
    try:
        f()
    except ValueError:
        return j.true(name + ' raises ValueError', X.TRUE)
    j.fail(name, 'no ValueError')


def trajectories(j, name, tr, M, lam):
    """tr(M, **units) -> (t, r, theta, phi)"""
    U = j.P.units
    nat = [f(lam) for f in tr(M)]
    for d in ('natural',) + tuple(DIST):
        for s in ('natural',) + tuple(TIME):
            got = [f(lam) for f in tr(M, distance_units=d, time_units=s)]
            want = list(nat)
            if d != 'natural':
                want[1] = getattr(U, DIST[d])(nat[1], M)
            if s != 'natural':
                want[0] = getattr(U, TIME[s])(nat[0], M)
            same(j, '%s in %s, %s' % (name, d, s), got, want)
            if (d, s) != ('natural', 'natural'):
                refused(j, '%s in %s, %s without M' % (name, d, s), lambda: tr(None, distance_units=d, time_units=s))
    same(j, name + ' without M', [f(lam) for f in tr(None)], nat)


def constants_in_units(j, name, o, o0, M, mu, k):
    U = j.P.units
    E, L, Q = k
    same(j, name, o.constants_of_motion(), k)
    same(j, name + ' natural', o.constants_of_motion('natural'), k)
    same(j, name + ' natural without masses', o0(None, None).constants_of_motion(), k)
    # mu c^2 = the energy of one mass mu; G M mu / c: the conversion for the black hole times the mass ratio
    q = mu / M
    for u, (fe, fl, fq) in {'mks': ('energy_in_joules', 'angular_momentum_in_mks', 'carter_constant_in_mks'),
                            'cgs': ('energy_in_ergs', 'angular_momentum_in_cgs', 'carter_constant_in_cgs')}.items():
        want = (getattr(U, fe)(E, mu), getattr(U, fl)(L, M) * q, getattr(U, fq)(Q, M) * q * q)
        same(j, '%s in %s' % (name, u), o.constants_of_motion(u), want)
        for mm in ((None, mu), (M, None), (None, None)):
            refused(j, '%s in %s without %s' % (name, u, 'M' if mm[0] is None else 'mu'), lambda: o0(*mm).constants_of_motion(u))
    for u in ('km', 'SI', '', 'mHz'):
        refused(j, '%s in unknown units' % name, lambda: o.constants_of_motion(u))


def stable_job(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    P = j.P
    lam, M, mu = V('lam'), V('M'), V('mu')
    ph = tuple(V('q_' + k) for k in ('t', 'r', 'theta', 'phi'))

    def fn():
        k = constants(j, m)
        roots(j, m, k)
        a, p, e, x = m.a, m.p, m.e, m.x
        U = P.units
        trajectories(j, 'stable_trajectory', lambda MM, **u: P.stable.stable_trajectory(a, p, e, x, ph, MM, **u), M, lam)
        O = P.stable.StableOrbit
        trajectories(j, 'StableOrbit.trajectory', lambda MM, **u: O(a, p, e, x, ph, MM, mu).trajectory(**u), M, lam)
        o = O(a, p, e, x, ph, M, mu)
        constants_in_units(j, 'constants_of_motion', o, lambda M_, mu_: O(a, p, e, x, ph, M_, mu_), M, mu, k)
        y = P.frequencies.mino_frequencies(a, p, e, x)
        same(j, 'mino_frequencies', o.mino_frequencies(), y)
        for u in ('mks', 'cgs'):
            same(j, 'mino_frequencies in ' + u, o.mino_frequencies(u), tuple(U.time_in_seconds(v, M) for v in y[:3]) + (U.time2_in_seconds2(y[3], M),))
        om = [v / y[3] for v in y[:3]]
        same(j, 'fundamental_frequencies', o.fundamental_frequencies(), om)
        for u, f in (('mks', U.frequency_in_Hz), ('cgs', U.frequency_in_Hz), ('mHz', U.frequency_in_mHz)):
            same(j, 'fundamental_frequencies in ' + u, o.fundamental_frequencies(u), [f(v, M) for v in om])
        same(j, 'fundamental_frequencies without M', O(a, p, e, x, ph).fundamental_frequencies(), om)
        for f in ('mino_frequencies', 'fundamental_frequencies'):
            for u in ('mks', 'cgs') + (('mHz',) if f[0] == 'f' else ()):
                refused(j, '%s in %s without M' % (f, u), lambda: getattr(O(a, p, e, x, ph), f)(u))
            for u in ('km', 'Hz', ''):
                refused(j, f + ' in unknown units', lambda: getattr(o, f)(u))
    j.check_sides = False
    # the spacing of the samples keeps the masses positive
    j.explore(fn, m.facts + [lt(0, M), lt(0, mu)], [dict(s, **EXTRA) for s in m.samples[:4]], ('a', 'p', 'e', 'x') + tuple(EXTRA), defs=m.defs, scope=j.name,
              timeout=0.4, merge=True)


def plunge_job(j):
    m = Plunge(j.name, j.seed, 3)
    P = j.P
    lam, M, mu = V('lam'), V('M'), V('mu')
    ph = tuple(V('q_' + k) for k in ('t', 'r', 'theta', 'phi'))

    def fn():
        m.register(j)
        bool(m.L < 0)    # one path per sign: |L| is resolved the same way in every call
        a, k = m.a, (m.E, m.L, m.Q)
        trajectories(j, 'plunging_trajectory', lambda MM, **u: P.plunge.plunging_trajectory(a, *k, ph, MM, **u), M, lam)
        O = P.plunge.PlungingOrbit
        trajectories(j, 'PlungingOrbit.trajectory', lambda MM, **u: O(a, *k, ph, MM, mu).trajectory(**u), M, lam)
        o = O(a, *k, ph, M, mu)
        constants_in_units(j, 'constants_of_motion', o, lambda M_, mu_: O(a, *k, ph, M_, mu_), M, mu, k)
    j.check_sides = False
    j.explore(fn, m.facts + [lt(0, M), lt(0, mu), ne(m.L, 0)], [dict(s, **EXTRA) for s in m.samples], m.names + tuple(EXTRA), defs=m.defs, scope=j.name,
              timeout=0.4, merge=True)


def orbit_job(j):
    """orbits built from initial conditions pass the units and masses on"""
    P = j.P
    st = 'stable' in j.name
    lam, M, mu = V('lam'), V('M'), V('mu')
    IC, O = P.initial_conditions, P.orbit.Orbit
    ph = tuple(V('q_' + k) for k in ('t', 'r', 'theta', 'phi'))
    pos, vel = tuple(V('x%d' % k) for k in range(4)), tuple(V('v%d' % k) for k in range(4))
    k = (V('E'), V('L'), V('Q'))
    a = V('a')
    patch(P, IC.is_stable, lambda *s, **kw: st)
    patch(P, IC.constants_from_initial_conditions, lambda *s, **kw: k)
    patch(P, IC.stable_orbit_initial_phases, lambda *s, **kw: ph)
    patch(P, IC.plunging_orbit_initial_phases, lambda *s, **kw: ph)
    patch(P, P.constants.apex_from_constants, lambda *s: (a, V('p'), V('e'), V('x')))
    for n in ('mino_frequencies', 'fundamental_frequencies', 'plunging_mino_frequencies'):
        patch(P, getattr(P.frequencies, n), lambda *s, n=n: tuple(V('%s%d' % (n[0], i)) for i in range({'m': 4, 'f': 3, 'p': 2}[n[0]])))
    P.spacetime.KerrSpacetime.norm = lambda *s: K(-1)
    for n in ('radial_solutions', 'polar_solutions', 'plunging_radial_solutions_complex', 'plunging_polar_solutions'):
        f = getattr(P.stable if n in ('radial_solutions', 'polar_solutions') else P.plunge, n)
        patch(P, f, lambda *s, n=n: tuple((lambda q, c=c: X and Sym(X.fn('sin', lift(q + c)))) for c in range(3)))
    patch(P, P.constants.constants_of_motion, lambda *s: k)
    patch(P, P.constants.stable_radial_roots, lambda *s: tuple(V('r%d' % i) for i in range(4)))
    patch(P, P.constants.stable_polar_roots, lambda *s: (V('z0'), V('z1')))
    cpx = 'complex' in j.name
    patch(P, P.constants.plunging_radial_roots, lambda *s: (V('r0'), V('r1'), S.SymComplex(V('r2'), -V('r3')), S.SymComplex(V('r2'), V('r3'))) if cpx else tuple(V('r%d' % i) for i in range(4)))
    names = [s.n.args for s in pos + vel + k + ph] + ['p', 'e', 'x', 'z0', 'z1'] + ['r%d' % i for i in range(4)] + ['m%d' % i for i in range(4)] + ['f%d' % i for i in range(3)] + ['p0', 'p1']
    rnd = random.Random(j.seed)
    smp = [dict({n: q(rnd, Fraction(1, 10), 1) for n in names}, a=q(rnd, 0, 1), **{k: v for k, v in EXTRA.items()}) for _ in range(4)]

    def fn():
        mk = lambda M_, mu_: O(a, pos, vel, M_, mu_)
        trajectories(j, 'Orbit.trajectory', lambda MM, **u: mk(MM, mu).trajectory(**u), M, lam)
        constants_in_units(j, 'Orbit.constants_of_motion', mk(M, mu), mk, M, mu, k)
    j.check_sides = False
    j.explore(fn, [lt(0, a), lt(a, 1), lt(0, V('E')), lt(V('E'), 1), lt(0, M), lt(0, mu), lt(0, V('r3'))], smp, ('a',) + tuple(EXTRA), scope=j.name, timeout=0.4, merge=True)


def jobs(tier, seed):
    return ([(s, stable_job) for s in slices()] + [('plunge ' + s, lambda j, s=s: (setattr(j, 'name', s), plunge_job(j))) for s in PSLICES]
            + [('Orbit ' + s, orbit_job) for s in ('stable', 'real plunge', 'complex plunge')])


META = {
    'budget': {'quick': 120, 'thorough': 300},
    'bounds': 'all 0 <= a < 1, all stable orbits and all plunges with simple radial roots, all positive masses, every Mino time and initial phase, every combination of documented units',
    'outside': 'plunges with L=0 and four real radial roots (undefined azimuth, see C11), the numerical values of the conversion factors (C20), the dimensionless results themselves, rounding',
    'stubs': ['separatrix: an unknown number between 1 and p', 'numpy polynomial roots: unknown numbers characterised by the polynomial',
              'for orbits built from initial conditions: stability, phases, roots and the radial and polar solutions are arbitrary values'],
}
