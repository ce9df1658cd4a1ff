"""C17: initial phases reproduce plunging initial conditions"""
from .stable import lemma, lemma_zero
from .plunge import *
from .motion import *
from .c16 import canonical, component, TOL, arccos

NAMES = ('r', 'theta', 'dr', 'dtheta', 't', 'phi')


def job(j):
    m = Plunge(j.name, j.seed, 6)
    P = j.P
    IC, O = P.initial_conditions, P.orbit
    k = (m.E, m.L, m.Q)
    E, L, Q = k
    a, w = m.a, m.w
    cx = m.kind == 'complex'
    if cx:
        s1, s2, re, im = m.roots        # s1 < s2
        top, bot = s2, s1
        A, B = V('A'), V('B')
        m.defs['A'] = lambda env, n=lift(sqrt((s2 - re) ** 2 + im ** 2)): N.evalf(n, env)
        m.defs['B'] = lambda env, n=lift(sqrt((s1 - re) ** 2 + im ** 2)): N.evalf(n, env)
        extra = [lt(0, A), lt(0, B), eq(A * A, (s2 - re) ** 2 + im ** 2), eq(B * B, (s1 - re) ** 2 + im ** 2),
                 lt((A - B) ** 2, (s2 - s1) ** 2), lt((s2 - s1) ** 2, (A + B) ** 2)]
    else:
        top, bot, r3, r4 = m.roots
        extra = []
    r0, th0, dr0, dth0, t0, ph0 = (V(n) for n in NAMES)
    pos, vel = (t0, r0, th0, ph0), (V('dt'), dr0, dth0, V('dphi'))
    calls = []
    real_constants = IC.constants_from_initial_conditions

    def from_conditions(*s, **kw):
        s = list(s) + [kw[n] for n in ('a', 'initial_position', 'initial_velocity')[len(s):]]
        calls.append(s)
        return k
    patch(P, real_constants, from_conditions)
    patch(P, IC.is_stable, lambda *s, **kw: False)
    P.spacetime.KerrSpacetime.norm = lambda *s: K(-1)
    c0 = cos(th0)
    zm = K(0) if m.eq else V('zm') if not cx else V('zz')
    if cx and not m.eq:
        # cos^2 of the polar turning point and the other root of the polar polynomial
        zp = V('zy')
        m.defs['zz'], m.defs['zy'] = lambda env: m.polar(env)[0], lambda env: m.polar(env)[1]
        b = a ** 2 * (1 - E ** 2)
        extra += [lt(0, zm), lt(zm, 1), lt(1, zp), eq(Q, b * zm * zp), eq(L ** 2, b * (1 - zm) * (zp - 1))]
    facts = m.facts + extra + [ne(L, 0), lt(0, th0), lt(th0, PI), lt(0, sin(th0)), le(bot, r0), le(r0, top), X.cor(ne(dr0, 0), eq(r0, top), eq(r0, bot))]
    if m.eq:
        facts += [eq(th0, PI / 2), eq(c0, 0), eq(dth0, 0)]
    else:
        sz, tm = sqrt(zm), arccos(sqrt(zm))
        facts += [le(c0, sz), le(-sz, c0), X.cor(ne(c0, sz), eq(th0, tm)), X.cor(ne(c0, -sz), eq(th0, PI - tm)),
                  lt(0, tm), lt(tm, PI / 2), eq(arccos(-sz), PI - tm), X.cor(ne(dth0, 0), eq(c0, sz), eq(c0, -sz))]

    def near(p, q_):
        return bool(abs(p - q_) < K(TOL))

    def at0(n):
        n = X.substitute([lift(n)], {X.var('lam'): X.const(0)})[0]
        t = {q_: X.fn(q_.args[0], *j.ex.canon(*q_.args[1:])) for q_ in X.walk([n]) if q_.kind == 'f' and q_.args[0] in ('sn', 'cn', 'dn')}
        return Sym(X.substitute([n], t)[0])

    def setup():
        m.register(j)
        if not cx:
            j.ex.known_polys[:] = j.ex.known_polys[-2:]
        S.decide(X.lt(L.n, X.const(0)))

        def init(f):
            f.sqr[f._nodegen(a.n)] = ('frac', f.el(lift(1 - w * w)))
            if cx and not m.eq:
                f.sqr[f._nodegen(L.n)] = ('frac', f.el(lift(b * (1 - zm) * (zp - 1))))
                f.memo[Q.n] = f.el(lift(b * zm * zp))
            if cx:
                f.sqr[f._nodegen(A.n)] = ('frac', f.el(lift((s2 - re) ** 2 + im ** 2)))
                f.sqr[f._nodegen(B.n)] = ('frac', f.el(lift((s1 - re) ** 2 + im ** 2)))
        j.ex.field_init = init
        j.ex._field = None
        j.ex.canon = canonical(j.ex)
        if cx:
            X.CUT[lift(sqrt((s2 - re) ** 2 + im ** 2))] = A.n
            X.CUT[lift(sqrt((s1 - re) ** 2 + im ** 2))] = B.n

    def begins(name, tr, snap_r, snap_th):
        z = K(0)
        j.ex.merge = True
        t, r, th, ph = tr
        j.zero(name + ': time', t(z) - t0)
        j.zero(name + ': azimuth', ph(z) - ph0)
        j.ex.merge = False
        R, T = r(z), th(z)
        if snap_r:
            j.true(name + ': radius at a turning point', lt(abs(R - r0), TOL))
        else:
            j.zero(name + ': radius', R - r0)
            v = sqrt(m.R(r0))
            j.zero(name + ': radial direction', at0(rate(r(LAM))) - (v if bool(dr0 > 0) else -v))
        if m.eq:
            j.zero(name + ': equatorial', cos(T))
        elif snap_th:
            j.true(name + ': polar angle at a turning point', lt(abs(T - th0), TOL))
        else:
            j.zero(name + ': polar angle', cos(T) - c0)
            j.true(name + ': polar direction', lt(at0(rate(cos(th(LAM)))) * dth0, 0))

    def fn():
        setup()
        snap_r = near(r0, top) or near(r0, bot)
        snap_th = m.eq or near(th0, tm) or near(th0, PI - tm)
        n = j.ex.choose(2, 'call')
        if n == 0:
            o = O.Orbit(a, pos, vel)
            j.true('constants of these initial conditions', bool(calls) and all(lift(c[0]) is lift(a) and c[1] is pos and c[2] is vel for c in calls))
            begins('Orbit', o.trajectory(), snap_r, snap_th)
        else:
            ref = IC.plunging_orbit_initial_phases(a, pos, vel)
            rts = P.constants.plunging_radial_roots(a, E, L, Q)
            for nm, kw in (('constants', dict(constants=k)), ('constants and roots', dict(constants=k, radial_roots=rts))):
                got = IC.plunging_orbit_initial_phases(a, pos, vel, **kw)
                for c, g, h in zip(('t', 'r', 'theta', 'phi'), got, ref):
                    j.zero('phases with precomputed %s: %s' % (nm, c), g - h)
    smp = [start(m, s, n) for s in m.samples for n in range(10)]
    j.check_sides = False
    j.explore(fn, facts, smp, m.names + NAMES, defs=m.defs, timeout=0.4, scope=j.name)


def start(m, s, n):
    """a starting point on the plunge s, number n: all directions, and turning points"""
    F = Fraction
    rnd = m.rnd
    re, im = solve(*[s.get(k, F(0)) for k in 'aELQ'])
    if m.kind == 'complex' or m.kind == 'inner':
        bot, top = re[0], re[1]
    else:
        bot, top = re[2], re[3]
    d = dict(s, t=q(rnd, -5, 5), phi=q(rnd, -5, 5), dt=F(2), dphi=F(1, 10))
    d['sr'], d['sth'] = F((1, -1)[n % 2]), F((1, -1)[n // 2 % 2])
    k = lambda env: tuple(float(N.evalf(X.var(v), env)) if v in env else 0.0 for v in 'ELQ')
    fr = lambda v: F(round(float(v) * 10 ** 12), 10 ** 12)
    if n == 6:
        d['r'], d['dr'] = (lambda env, v=top: v), F(0)
    elif n == 9:
        # within the tolerance of the inner turning point
        d['r'], d['dr'] = fr(bot) + F(3, 10 ** 5), component('r', 'sr', k)
    else:
        u = q(rnd, 0, 1) if n < 4 else q(rnd, F(1, 1000), F(1, 50)) if n == 4 else 1 - q(rnd, F(1, 1000), F(1, 50))
        d['r'], d['dr'] = fr(bot) + fr(top - bot) * u, component('r', 'sr', k)
    if m.eq:
        d['theta'], d['dtheta'] = (lambda env: N.mp.pi / 2), F(0)
        return d
    z = m.polar({k: v for k, v in s.items()})[0]
    if n in (7, 8):
        d['theta'], d['dtheta'] = (lambda env, z=z: N.mp.acos(N.mp.sqrt(z)) if n == 7 else N.mp.pi - N.mp.acos(N.mp.sqrt(z))), F(0)
    else:
        d['theta'] = F(round(1000 * float(N.mp.acos(float(q(rnd, -1, 1)) * N.mp.sqrt(z)))), 1000)
        d['dtheta'] = component('theta', 'sth', k)
    return d


def jobs(tier, seed):
    return [(n, job) for n in SLICES]


META = {
    'budget': {'quick': 300, 'thorough': 700},
    'bounds': 'all plunges with 0 < a < 1, 0 < E < 1, L != 0 and simple radial roots (two complex, or four real with the plunge inside or outside), every starting point and direction; default tolerance',
    'outside': 'at turning points (within 1e-4) the position is reproduced to within 1e-4; L = 0',
    'stubs': ['constants from initial conditions (C14), classification (C15), norm (C18): the values they should have',
              'numpy polynomial roots: unknown numbers characterised by the polynomial', 'elliptic functions: inversion sn(F(phi|m)|m) = sin(phi), shifts by quarter periods'],
}
