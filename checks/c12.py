"""C12: the four-velocity is the normalised tangent of the trajectory"""
from .stable import *
from .motion import *
from .plunge import Plunge
from .plunge import SLICES as PSLICES

PNAMES = ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam')


def geometry(r, c, a):
    """Kerr metric components (tt, tphi, phiphi, rr, thth) and sin^2"""
    s2 = 1 - c * c
    Sg, D = sigma(r, c, a), delta(r, a)
    return -(1 - 2 * r / Sg), -2 * a * r * s2 / Sg, s2 * (r * r + a * a + 2 * a * a * r * s2 / Sg), Sg / D, Sg


def formula(j):
    """the spacetime's four-velocity at an arbitrary point with arbitrary constants for which the potentials are not negative"""
    spin = j.name.split(': ')[1]
    a = V('a') if spin == 'kerr' else K(0)
    r0, th0, E, L, Q = (V(k) for k in ('r', 'theta', 'E', 'L', 'Q'))
    ups, lam = (V('upsilon_r'), V('upsilon_theta')), V('lam')
    ph = phases()
    rnd = random.Random('c12 %s' % j.seed)
    smp = []
    while len(smp) < 12:
        s = {'a': q(rnd, 0, 1) if spin == 'kerr' else Fraction(0), 'r': q(rnd, 0, 12), 'theta': q(rnd, Fraction(1, 10), 3), 'E': q(rnd, 0, 2), 'L': q(rnd, -4, 4), 'Q': q(rnd, 0, 12)}
        f = {k: float(v) for k, v in s.items()}
        import math
        c = math.cos(f['theta'])
        if float(Rpot(f['r'], f['a'], f['E'], f['L'], f['Q'])) < 1e-2 or float(Tpot(c * c, f['a'], f['E'], f['L'], f['Q'])) < 1e-2 or abs(delta(f['r'], f['a'])) < 1e-2:
            continue
        s.update(upsilon_r=q(rnd, 0, 4), upsilon_theta=q(rnd, 0, 4), lam=q(rnd, -5, 5), q_t=q(rnd, -5, 5), q_phi=q(rnd, -5, 5), q_r=q(rnd, -9, 9), q_theta=q(rnd, -9, 9))
        smp.append(s)
    c = cos(th0)

    def fn():
        u = j.P.spacetime.KerrSpacetime(a).four_velocity(lambda l: V('t'), lambda l: r0, lambda l: th0, lambda l: V('phi'), (E, L, Q), ups[0], ups[1], ph)
        if len(u) != 4:
            return j.fail('four components')
        ut, ur, uth, up = [f(lam) for f in u]
        g = geometry(r0, c, a)
        Sg = g[4]
        j.zero('energy', -(g[0] * ut + g[1] * up) - E)
        j.zero('angular momentum', g[1] * ut + g[2] * up - L)
        j.zero('norm', g[0] * ut * ut + 2 * g[1] * ut * up + g[2] * up * up + g[3] * ur * ur + g[4] * uth * uth + 1)
        j.zero('radial component', (Sg * ur) ** 2 - Rpot(r0, a, E, L, Q))
        j.zero('polar component', (Sg * uth * sin(th0)) ** 2 - Tpot(c * c, a, E, L, Q))
        j.true('radial direction', le(0, ur * sin(ups[0] * lam + ph[1])))
        j.true('polar direction', le(0, uth * sin(ups[1] * lam + ph[2])))
    facts = [lt(0, r0), lt(0, th0), lt(th0, PI), lt(0, sin(th0)), le(0, Rpot(r0, a, E, L, Q)), le(0, Tpot(c * c, a, E, L, Q)),
             ne(delta(r0, a), 0), lt(0, sigma(r0, c, a)), lt(0, ups[0]), lt(0, ups[1])] + ([lt(0, a), lt(a, 1)] if spin == 'kerr' else [])
    j.check_sides = False
    j.explore(fn, facts, smp, ('a', 'r', 'theta', 'E', 'L', 'Q', 'upsilon_r', 'upsilon_theta') + PNAMES, defs={'t': Fraction(1), 'phi': Fraction(1)}, scope=j.name)


def nf(j, n):
    """normal form of an expression on the current path"""
    f = norm.field(j.ex)
    return Sym(f.full_node(f.el(lift(n))))


def direction(j, name, rate_, quotient, phase):
    """the rate is a positive factor times quotient, which has the sign of sin(phase): as the velocity has by the formula job and the wiring"""
    g = rate_ / quotient
    try:
        g = nf(j, g)
    except (norm.Failed, ZeroDivisionError):
        pass
    j.true(name + ': positive factor', lt(0, g))
    j.true(name + ': sign of the rate', le(0, quotient * sin(phase)))


def wiring(j, o, cls, ph, k, a):
    """the orbit's four-velocity is the spacetime's, fed with its own trajectory, frequencies and the phases asked for"""
    other = phases('b')
    kst = j.P.spacetime.KerrSpacetime(a)
    for n, args, p in (('given phases', (other,), other), ('default phases', (), ph)):
        got = [f(LAM) for f in o.four_velocity(*args)]
        want = [f(LAM) for f in kst.four_velocity(*o.trajectory(p), k, o.upsilon_r, o.upsilon_theta, p)]
        same(j, '%s: four-velocity for %s' % (cls, n), got, want)
        if hasattr(o, '_four_velocity_norm'):
            tr = [f(LAM) for f in o.trajectory(p)]
            same(j, '%s: norm for %s' % (cls, n), o._four_velocity_norm(*args)(LAM), kst.norm(*tr, want))
    same(j, cls + ': initial position', o.initial_position, [f(K(0)) for f in o.trajectory(ph)])
    same(j, cls + ': initial velocity', o.initial_velocity, [f(K(0)) for f in o.four_velocity(ph)])


def check(j, o, ph, radial_phase, k, a, polar=True):
    tr = [f(LAM) for f in o.trajectory()]
    r, th = tr[1], tr[2]
    E, L, Q = k
    c = cos(th)
    Sg = sigma(r, c, a)
    dr, dth = rate(r), rate(th)
    # elliptic pairs of the radial and of the polar motion, and their phases
    qr, qt = o.upsilon_r * LAM + ph[1], o.upsilon_theta * LAM + ph[2]
    halves = {'half': qr / 2, 'full': qr}
    rp, tp = halves.get(radial_phase), qt + PI / 2
    if radial_phase:
        jacobi_axioms(j, [r], [rp])
    jacobi_axioms(j, [th], [tp])
    j.ex.assume(eq(sin(qr), 2 * sin(qr / 2) * cos(qr / 2)))
    j.ex.assume(eq(sin(qt), -cos(tp)))

    def pair(n):
        return elliptic(n)[0]
    if radial_phase is not None:
        sn, cn, dn = (Sym(X.fn(f, *pair(r))) for f in ('sn', 'cn', 'dn'))
        j.ex.assume(lt(0, dn))
        direction(j, 'radial', dr, (sn * cn * dn) if radial_phase == 'half' else sn * dn, qr)
    else:
        j.zero('no radial motion', dr)
    if polar:
        if elliptic(th):
            sn, cn, dn = (Sym(X.fn(f, *pair(th))) for f in ('sn', 'cn', 'dn'))
            j.ex.assume(lt(0, dn))
        else:
            cn, dn = cos(tp), K(1)
        direction(j, 'polar', dth, -cn * dn, qt)
    elif polar is False:
        j.zero('no polar motion', dth)


def stable_job(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    ph = phases()

    def fn():
        consts = constants(j, m)
        facts_constants(j, m, *consts)
        rr, w = roots(j, m, consts)
        vieta(j, m, consts, rr)
        o = j.P.stable.StableOrbit(m.a, m.p, m.e, m.x, ph, V('M'), V('mu'))
        wiring(j, o, 'StableOrbit', ph, consts, m.a)
        check(j, o, ph, 'half' if m.ecc == 'ecc' else None, consts, m.a, not m.inc.startswith('eq'))
    extra = {'M': Fraction(10), 'mu': Fraction(2)}
    smp = [dict(s, **extra, **{n + 'b': q(m.rnd, -5, 5) for n in PNAMES[:4]}) for s in phase_samples(m)]
    j.check_sides = False
    j.explore(fn, m.facts, smp, m.names + PNAMES + tuple(n + 'b' for n in PNAMES[:4]), defs=m.defs, timeout=0.4, merge=True)


def plunge_job(j):
    m = Plunge(j.name.split(': ')[1], j.seed, 4)
    ph = phases()

    def fn():
        m.register(j)
        bool(m.L < 0)
        k = (m.E, m.L, m.Q)
        o = j.P.plunge.PlungingOrbit(m.a, *k, ph, V('M'), V('mu'))
        wiring(j, o, 'PlungingOrbit', ph, k, m.a)
        check(j, o, ph, 'full' if m.kind == 'complex' else 'half', k, m.a, None if m.eq else True)
    extra = {'M': Fraction(10), 'mu': Fraction(2)}
    smp = [dict(s, **extra, **{n + 'b': q(m.rnd, -5, 5) for n in PNAMES[:4]}) for s in phase_samples(m)]
    j.check_sides = False
    j.explore(fn, m.facts + [ne(m.L, 0)], smp, m.names + PNAMES + tuple(n + 'b' for n in PNAMES[:4]), defs=m.defs, timeout=0.4, merge=True)


def jobs(tier, seed):
    return [('formula: kerr', formula), ('formula: schw', formula)] + [(n, stable_job) for n in slices()] + [('plunge: ' + n, plunge_job) for n in PSLICES]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'every point outside the horizons\' zero sets and all constants with non-negative potentials (formulas); all 0 <= a < 1 stable orbits with 0 <= e < 1, x != 0, all plunges with simple radial roots and L != 0, every Mino time and initial phases (directions)',
    'outside': 'that dr/dlambda and dtheta/dlambda have the right magnitude (C07, C10, C11), rounding',
    'stubs': ['separatrix: an unknown number between 1 and p', 'numpy polynomial roots: unknown numbers characterised by the polynomial',
              'Jacobi functions: algebraic relations, derivatives, and the signs of sn and cn as functions of the phase'],
}
