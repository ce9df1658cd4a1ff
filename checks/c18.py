"""C18: orbits are only built from valid initial conditions"""
from .common import *
from .c14 import unit_dt
from symk import numeric as N

NAMES = ('a', 't', 'r', 'theta', 'phi', 'dt', 'dr', 'dtheta', 'dphi')
FACTOR = ('dt', 'dr', 'dtheta', 'dphi')


def radial_roots(env):
    """real radial roots of the orbit through the point (increasing) and the largest root of the inner region"""
    g = lambda k: N.evalf(X.var(k), env)
    a, r, th = g('a'), g('r'), g('theta')
    s2, c2 = N.mp.sin(th) ** 2, N.mp.cos(th) ** 2
    S_ = r * r + a * a * c2
    gtt, gtp, gpp = -1 + 2 * r / S_, -2 * a * r * s2 / S_, s2 * (r * r + a * a) + 2 * a * a * r * s2 * s2 / S_
    E, L = -(gtt * g('dt') + gtp * g('dphi')), gtp * g('dt') + gpp * g('dphi')
    Q = (S_ * g('dtheta')) ** 2 + c2 * (a * a * (1 - E * E) + L * L / s2)
    cs = [E * E - 1, 2, a * a * (E * E - 1) - L * L - Q, 2 * ((a * E - L) ** 2 + Q), -a * a * Q]
    rs = N.mp.polyroots(cs, maxsteps=300, extraprec=200)
    return sorted(N.mp.re(x) for x in rs if abs(N.mp.im(x)) < 1e-10), 1 - N.mp.sqrt(1 - a * a)


def stable_def(env):
    try:
        rs, rm = radial_roots(env)
    except (N.mp.NoConvergence, ZeroDivisionError):
        return None
    if len(rs) < 4:
        return N.mp.mpf(-1)
    return N.mp.mpf(1 if rs[2] > rm and N.evalf(X.var('r'), env) > rs[2] - N.mp.mpf(10) ** -4 else -1)


def samples(seed, zero, n=36):
    rnd = random.Random(seed)
    F = Fraction
    out = []
    for k in range(4000):
        if len(out) >= n:
            break
        a = F(0) if zero else q(rnd, 0, 1)
        # orbits near circular motion at moderate radius (mostly stable) and falling ones
        r = q(rnd, 3, 30)
        d = {'a': a, 'r': r, 'theta': q(rnd, F(1), F(2)), 't': q(rnd, -9, 9), 'phi': q(rnd, -9, 9),
             'dr': rnd.choice([F(0), q(rnd, F(-1, 8), F(1, 8))]), 'dtheta': rnd.choice([F(0), q(rnd, F(-1, 200), F(1, 200))]),
             'dphi': q(rnd, F(9, 10), F(11, 10)) * F(round(1e6 * float(r) ** -1.5 / (1 - 3 / float(r)) ** .5), 10 ** 6) if r > 4 and k % 3 else q(rnd, F(-1, 20), F(1, 20)), 'dt': unit_dt}
        ut = unit_dt(d)
        if ut is None:
            continue
        # scale the velocity so that its norm is -(1 + s)
        s = [F(0), F(0), F(1, 2000000), F(-1, 2000000), F(1, 500000), F(-1, 500000), F(1, 10), F(-1, 2), F(3)][k % 9]
        f = N.mp.sqrt(1 + N.mp.mpf(s.numerator) / s.denominator)
        if s:
            for c in FACTOR:
                v = ut if c == 'dt' else N.mp.mpf(d[c].numerator) / d[c].denominator
                d[c] = v * f
        if k % 10 == 9:
            d['dt'] = F(0)          # spacelike
        out.append(d)
    return out


def job(j):
    P = j.P
    kind, zero = j.name.split(' at ')[0], 'a=0' in j.name
    v = {k: V(k) for k in NAMES}
    if zero:
        v['a'] = K(0)
    a, r, th = v['a'], v['r'], v['theta']
    stb = V('stb')
    fs = [lt(2, r), lt(0, th), lt(th, PI)] + ([] if zero else [lt(0, a), lt(a, 1)])
    pos = tuple(v[k] for k in NAMES[1:5])
    vel = tuple(v[k] for k in NAMES[5:])
    O, IC = P.orbit, P.initial_conditions
    calls = []

    def is_stable(*s, **k):
        calls.append(s)
        return S.mkbool(lt(0, stb))
    patch(P, IC.is_stable, is_stable)
    patch(P, P.constants.apex_from_constants, lambda a, E, L, Q: (a, V('p'), V('e'), V('x')))
    patch(P, P.frequencies.mino_frequencies, lambda *s: tuple(V('U%d' % k) for k in range(4)))
    patch(P, P.frequencies.fundamental_frequencies, lambda *s: tuple(V('O%d' % k) for k in range(3)))
    patch(P, IC.stable_orbit_initial_phases, lambda *s, **k: tuple(V('ps%d' % k) for k in range(4)))
    patch(P, IC.plunging_orbit_initial_phases, lambda *s, **k: tuple(V('pp%d' % k) for k in range(4)))
    patch(P, P.frequencies.plunging_mino_frequencies, lambda *s: tuple(V('W%d' % k) for k in range(2)))
    if kind == 'PlungingOrbit':
        C = P.plunge.PlungingOrbit
        for m in ('trajectory', 'four_velocity'):
            setattr(C, m, lambda self, *s, **k: tuple((lambda lam, c=c: V('u_' + c)) for c in 'trhp'))

        def fn():
            k = (V('E'), V('L'), V('Q'))
            try:
                o = C(a, *k, M=V('M'))
            except ValueError:
                return j.true('only Schwarzschild plunges are refused', eq(a, 0))
            j.true('Schwarzschild plunges are refused', ne(a, 0))
            same(j, 'constants', (o.a, o.E, o.L, o.Q, o.M), (a,) + k + (V('M'),))
            j.true('not stable', o.stable is False)
        fs = [] if zero else [lt(-1, a), lt(a, 1)]
        F = Fraction
        smp = [{'a': F(k, 10), 'E': F(9, 10), 'L': F(1), 'Q': F(2), 'M': F(1)} for k in ([0] if zero else [0, 1, 5, 9, -5])]
        j.check_sides = False
        return j.explore(fn, fs, smp, ('a', 'E', 'L', 'Q'), scope=j.name)

    def fn():
        s2, c2 = sin(th) ** 2, cos(th) ** 2
        S_ = r * r + a * a * c2
        gtt, gtp, gpp = -1 + 2 * r / S_, -2 * a * r * s2 / S_, s2 * (r * r + a * a) + 2 * a * a * r * s2 * s2 / S_
        dt, dr, dh, dp = vel
        n = gtt * dt ** 2 + 2 * gtp * dt * dp + gpp * dp ** 2 + S_ / delta(r, a) * dr ** 2 + S_ * dh ** 2
        nn = V('norm')
        j.ex._def('norm', lambda env: N.evalf(lift(n), env))
        got = {}
        real = P.spacetime.KerrSpacetime.norm

        def norm(self, *s):
            w = real(self, *s)
            j.zero('norm of the initial velocity', w - n)
            X.CUT[lift(w)] = nn.n
            return nn
        P.spacetime.KerrSpacetime.norm = norm
        tol = K(Fraction(1, 10 ** 6))
        bad = X.cor(le(0, nn), lt(tol, abs(nn + 1)))
        try:
            o = O.Orbit(a, pos, vel, M=V('M'), mu=V('mu'))
        except ValueError:
            if zero:
                bad = X.cor(bad, le(stb, 0))
            return j.true('only invalid initial conditions are refused', bad)
        finally:
            P.spacetime.KerrSpacetime.norm = real
        j.true('the velocity is unit timelike', X.cnot(bad))
        if zero:
            j.true('Schwarzschild plunges are refused', lt(0, stb))
        E, L, Q = IC.constants_from_initial_conditions(a, pos, vel)
        same(j, 'constants', (o.E, o.L, o.Q), (E, L, Q))
        same(j, 'spin', o.a, a)
        same(j, 'position', o.initial_position, pos)
        same(j, 'velocity', o.initial_velocity, vel)
        same(j, 'masses', (o.M, o.mu), (V('M'), V('mu')))
        st = o.stable
        j.true('stability', X.cor(X.cand(lt(0, stb), X.TRUE if st else X.FALSE), X.cand(le(stb, 0), X.FALSE if st else X.TRUE)))
        same(j, 'phases', o.initial_phases, tuple(V(('ps%d' if st else 'pp%d') % k) for k in range(4)))
        j.true('classification of these initial conditions', bool(calls) and all(x is y or x == y for x, y in zip(calls[-1][:1], (a,)))
               and tuple(calls[-1][1]) == pos and tuple(calls[-1][2]) == vel)
    j.check_sides = False
    extra = {k: Fraction(1) for k in ['M', 'mu', 'p', 'e', 'x'] + ['U%d' % k for k in range(4)] + ['O%d' % k for k in range(3)]
             + ['%s%d' % (c, k) for c in ('ps', 'pp') for k in range(4)] + ['W0', 'W1']}
    smp = [dict(s, **extra) for s in samples(j.seed, zero)]
    j.explore(fn, fs, smp, NAMES, scope=j.name, defs={'stb': stable_def})


def jobs(tier, seed):
    return [(k + z, job) for k in ('Orbit', 'PlungingOrbit') for z in ('', ' at a=0')]


META = {
    'budget': {'quick': 90, 'thorough': 200},
    'bounds': 'all 0 <= a < 1, positions outside r = 2 and off the axis, all velocities',
    'outside': 'which initial conditions are stable (C15), the values of phases and frequencies (C16, C17, C09); rounding within 1e-9 of the tolerance',
    'stubs': ['stability test, phases, frequencies and orbital parameters are unknown values'],
}
