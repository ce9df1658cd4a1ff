"""C16: initial phases reproduce stable initial conditions"""
from .stable import *
from .motion import *
from replay import kerr
import math

NAMES = ('r', 'theta', 'dr', 'dtheta', 't', 'phi')
TOL = Fraction(1, 10 ** 4)


def arccos(v):
    return Sym(X.fn('arccos', lift(v)))


def canonical(ex):
    """arguments n K(m) +- F(phi|m) of the Jacobi functions in that form, so that the inversion of F applies"""
    def canon(u, m):
        plain = m.kind == 'c' and m.args == 0
        for k in X.walk([u]):
            if k.kind == 'f' and (k.args[0] == 'arcsin' if plain else k.args[0] == 'F' and (k.args[2] is m or ex.equal(k.args[2], m))):
                Km, F = (X.scale(Fraction(1, 2), X.pi()), k) if plain else (X.fn('K', m), X.fn('F', k.args[1], m))
                envs = list(zip(ex._live, ex._memos)) or [(dict(e, **ex.vardefs), {}) for e in ex.sampler]
                for env, memo in envs:
                    try:
                        v, kv, fv = (N.evalf(n, env, memo) for n in (u, Km, F))
                    except N.Undefined:
                        continue
                    for c in (1, -1):
                        n = (v - c * fv) / kv
                        if abs(n - N.mp.nint(n)) < 1e-12:
                            w = X.add(X.scale(int(N.mp.nint(n)), Km), X.scale(c, F))
                            if ex.equal(u, w):
                                return w, m
                    break
        return u, m
    return canon


def job(j):
    m = Stable(j.name, j.seed, 4)
    P = j.P
    m.stub_separatrix(P)
    IC, O = P.initial_conditions, P.orbit
    A = (m.a, m.p, m.e, m.x)
    r0, th0, dr0, dth0, t0, ph0 = (V(k) for k in NAMES)
    pos, vel = (t0, r0, th0, ph0), (V('dt'), dr0, dth0, V('dphi'))
    eqt = m.inc.startswith('eq')
    box = {}
    real_constants = IC.constants_from_initial_conditions
    calls = []

    def from_conditions(*s, **kw):
        s = list(s) + [kw[n] for n in ('a', 'initial_position', 'initial_velocity')[len(s):]]
        calls.append(s)
        return box['k']
    patch(P, real_constants, from_conditions)
    patch(P, IC.is_stable, lambda *s, **kw: True)
    patch(P, P.constants.apex_from_constants, lambda *s: A)
    P.spacetime.KerrSpacetime.norm = lambda *s: K(-1)
    r2, r1 = m.p / (1 + m.e), m.p / (1 - m.e)
    zm = 1 - m.x * m.x
    c0 = cos(th0)
    facts = list(m.facts) + [lt(0, th0), lt(th0, PI), lt(0, sin(th0)), le(r2, r0), le(r0, r1)]
    # away from the turning points the initial velocity has the components of a geodesic
    facts += [X.cor(ne(dr0, 0), eq(r0, r1), eq(r0, r2))]
    if eqt:
        facts += [eq(th0, PI / 2), eq(c0, 0), eq(dth0, 0)]
    else:
        facts += [le(c0 * c0, zm), X.cor(ne(dth0, 0), eq(c0 * c0, zm))]

    def near(p, q_):
        return bool(abs(p - q_) < K(TOL))

    def begins(name, tr, snap_r, snap_th, exact):
        j.ex.merge = True
        t, r, th, ph = tr
        z = K(0)
        j.zero(name + ': time', t(z) - t0)
        j.zero(name + ': azimuth', ph(z) - ph0)
        j.ex.merge = False
        R, T = r(z), th(z)
        if snap_r:
            j.true(name + ': radius at a turning point', lt(abs(R - r0), TOL))
        else:
            j.zero(name + ': radius', R - r0)
            d = at0(rate(r(LAM)))
            if m.ecc != 'circ':
                E, (s1, s2, s3, s4) = box['k'][0], box['rr']
                v = sqrt((1 - E * E) * (s1 - r0) * (r0 - s2) * (r0 - s3) * (r0 - s4))
                j.zero(name + ': radial direction', d - (v if bool(dr0 > 0) else -v))
        if eqt:
            j.zero(name + ': equatorial', cos(T))
        elif snap_th:
            j.true(name + ': polar angle at a turning point', lt(abs(T - th0), TOL))
        else:
            j.zero(name + ': polar angle', cos(T) - c0)
            # dtheta = -d(cos theta)/sin theta
            j.true(name + ': polar direction', lt(at0(rate(cos(th(LAM)))) * dth0, 0))

    def at0(n):
        n = X.substitute([lift(n)], {X.var('lam'): X.const(0)})[0]
        t = {k: X.fn(k.args[0], *j.ex.canon(*k.args[1:])) for k in X.walk([n]) if k.kind == 'f' and k.args[0] in ('sn', 'cn', 'dn')}
        t.update({k: X.fn(k.args[0], j.ex.canon(k.args[1], X.const(0))[0]) for k in X.walk([n]) if k.kind == 'f' and k.args[0] in ('sin', 'cos') and not X.free_vars(k) <= {'theta'}})
        return Sym(X.substitute([n], t)[0])

    def fn():
        k = box['k'] = constants(j, m)
        facts_constants(j, m, *k)
        rr, w = roots(j, m, k)
        box['rr'] = rr
        vieta(j, m, k, rr)
        init = relations(j, m, k, w)
        if m.spin == 'schw' and m.ecc == 'ecc' and rr[0].n.kind == 'v':
            def both(f):
                f.memo[m.p.n] = f.el(lift(2 * rr[0] * rr[1] / (rr[0] + rr[1])))
                f.memo[m.e.n] = f.el(lift((rr[0] - rr[1]) / (rr[0] + rr[1])))
                init(f)
            j.ex.field_init = both
            j.ex._field = None
        E, L, Q = k
        a = m.a
        R = [-a ** 2 * Q, 2 * ((a * E - L) ** 2 + Q), a ** 2 * (E ** 2 - 1) - L ** 2 - Q, K(2), E ** 2 - 1]
        j.ex.known_polys.append(([lift(c) for c in R], [rr[3], rr[2], rr[1], rr[0]]))
        b = a ** 2 * (1 - E ** 2)
        pr = [Sym(lift(v)) for v in P.constants.stable_polar_roots(*A, k)]
        Z = [Q, -(Q + b + L ** 2)] + ([b] if m.spin == 'kerr' else [])
        j.ex.known_polys.append(([lift(c) for c in Z], pr[:len(Z) - 1]))
        j.ex.canon = canonical(j.ex)
        for c in (le(rr[1], r0), le(r0, rr[0]), X.cor(ne(dr0, 0), eq(r0, rr[0]), eq(r0, rr[1]))):
            j.ex.assume(c)
        if not eqt:
            tm, sz = arccos(sqrt(zm)), sqrt(zm)
            # the cosine is decreasing
            for c in (X.cor(ne(c0, sz), eq(th0, tm)), X.cor(ne(c0, -sz), eq(th0, PI - tm)), le(c0, sz), le(-sz, c0), lt(0, tm), lt(tm, PI / 2), eq(arccos(-sz), PI - tm), X.cor(ne(dth0, 0), eq(c0, sz), eq(c0, -sz))):
                j.ex.assume(c)
        snap_r = near(r0, rr[1]) or near(r0, rr[0])
        snap_th = eqt or near(th0, tm) or near(th0, PI - tm)
        n = j.ex.choose(2, 'call')
        if n == 0:
            o = O.Orbit(m.a, pos, vel)
            j.true('constants of these initial conditions', all(lift(c[0]) is lift(m.a) and c[1] is pos and c[2] is vel for c in calls))
            begins('Orbit', o.trajectory(), snap_r, snap_th, None)
        else:
            ups = P.frequencies.mino_frequencies(*A)
            ref = IC.stable_orbit_initial_phases(m.a, pos, vel)
            for nm, kw in (('constants', dict(constants=k)), ('constants and roots', dict(constants=k, radial_roots=tuple(rr))),
                           ('frequencies', dict(upsilon_r=ups[0], upsilon_theta=ups[1])),
                           ('everything', dict(constants=k, radial_roots=tuple(rr), upsilon_r=ups[0], upsilon_theta=ups[1]))):
                got = IC.stable_orbit_initial_phases(m.a, pos, vel, **kw)
                for c, g, h in zip(('t', 'r', 'theta', 'phi'), got, ref):
                    j.zero('phases with precomputed %s: %s' % (nm, c), g - h)

    smp = []
    wild = Stable(j.name, j.seed + 1, 16).samples
    # orbits that double precision handles well first
    for s in sorted(wild, key=lambda s: s['p'] / (1 - s['e']) > 500 or 0 < s['e'] < Fraction(1, 20))[:4] + m.samples[:1]:
        for n in range(10):
            smp.append(start(m, s, n))
    j.check_sides = False
    j.explore(fn, facts, smp, m.names + NAMES, defs=m.defs, timeout=0.4, scope=j.name)


def component(name, sign, k):
    """sample value of a component of the initial velocity: that of the geodesic with constants k(env)"""
    def f(env):
        v = {n: float(N.evalf(X.var(n), env)) for n in ('a', 'r', 'theta') if n != 'a' or n in env}
        a, r, th = v.get('a', 0.0), v['r'], v['theta']
        E, L, Q = k(env)
        c2 = math.cos(th) ** 2
        sq = kerr.R(r, a, E, L, Q) if name == 'r' else kerr.Theta(c2, a, E, L, Q)
        return N.evalf(X.var(sign), env) * N.mp.sqrt(max(0.0, sq)) / (r * r + a * a * c2)
    return f


def stable_constants(fixed):
    def f(env):
        a, p, e, x = (float(N.evalf(X.var(n), env)) if n in env else float(fixed[n]) for n in 'apex')
        E, L, Q = kerr.constants(a, p, e, x)
        return float(E), float(L), max(0.0, float(Q))
    return f


def start(m, s, n):
    """a starting point on the orbit s, number n: all directions, and turning points"""
    F = Fraction
    rnd = m.rnd
    d = dict(s, t=q(rnd, -5, 5), phi=q(rnd, -5, 5), dt=F(2), dphi=F(1, 10))
    r1, r2 = s['p'] / (1 - s['e']), s['p'] / (1 + s['e'])
    d['sr'], d['sth'] = F((1, -1)[n % 2]), F((1, -1)[n // 2 % 2])
    k = stable_constants(s)
    eqt = abs(s['x']) == 1
    tt = n in (7, 8)
    if s['e'] == 0 or n == 6:
        d['r'], d['dr'] = r1, F(0)
    elif n == 9:
        # within the tolerance of the inner turning point
        d['r'], d['dr'] = r2 + min(F(3, 10 ** 5), (r1 - r2) / 3), component('r', 'sr', k)
    else:
        u = q(rnd, 0, 1) if n < 4 else q(rnd, F(1, 1000), F(1, 50)) if n == 4 else 1 - q(rnd, F(1, 1000), F(1, 50))
        d['r'], d['dr'] = r2 + (r1 - r2) * u, component('r', 'sr', k)
    if eqt:
        d['theta'], d['dtheta'] = (lambda env: N.mp.pi / 2), F(0)
    elif tt:
        north = lambda env, x=s['x']: N.mp.asin(abs(N.mp.mpf(x.numerator)) / x.denominator)
        d['theta'], d['dtheta'] = north if n == 7 else (lambda env: N.mp.pi - north(env)), F(0)
    else:
        u = float(q(rnd, -1, 1))
        d['theta'] = F(round(1000 * math.acos(u * math.sqrt(1 - float(s['x']) ** 2))), 1000)
        d['dtheta'] = component('theta', 'sth', k)
    return d


def jobs(tier, seed):
    return [(n, job) for n in slices()]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'all stable orbits with 0 <= a < 1, 0 <= e < 1, x != 0 (16 slices with exact special values), every starting point and direction; default tolerance',
    'outside': 'at turning points (within 1e-4) the position is reproduced to within 1e-4',
    'stubs': ['separatrix: an unknown number between 1 and p', 'constants from initial conditions (C14), orbital parameters from constants (C06), stability (C15), norm (C18): the values they should have',
              'numpy polynomial roots: unknown numbers characterised by the polynomial', 'elliptic functions: inversion sn(F(phi|m)|m) = sin(phi), shifts by quarter periods'],
}
