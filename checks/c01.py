"""C01: the constants of motion put the turning points at p/(1-e) and p/(1+e)"""
from .common import *
from .stable import *


def coef(r, m):
    """R(r)/(...) = f E^2 - 2 g E L - h L^2 - d on orbits with the polar turning point at inclination x (Q eliminated)"""
    a, x2 = m.a, m.x * m.x
    z2 = 1 - x2
    D = r * r - 2 * r + a * a
    return (r ** 4 + a * a * (r * (r + 2) + z2 * D), 2 * a * r, r * (r - 2) + z2 / x2 * D, (r * r + a * a * z2) * D)


def coefp(r, m):
    a, x2 = m.a, m.x * m.x
    z2 = 1 - x2
    return (4 * r ** 3 + a * a * (2 * r + 2 + z2 * (2 * r - 2)), 2 * a, 2 * r - 2 + z2 / x2 * (2 * r - 2),
            2 * r * (r * r - 2 * r + a * a) + (r * r + a * a * z2) * (2 * r - 2))


def dRpot(r, a, E, L, Q):
    return 4 * r * E * (E * (r * r + a * a) - a * L) - (2 * r - 2) * (r * r + (a * E - L) ** 2 + Q) - (r * r - 2 * r + a * a) * 2 * r


def S_eq(p, a, e):
    return a ** 4 * (-3 - 2 * e + e ** 2) ** 2 + p ** 2 * (-6 - 2 * e + p) ** 2 - 2 * a ** 2 * (1 + e) * p * (14 + 2 * e ** 2 + 3 * p - e * p)


def job(j):
    m = Stable(j.name, j.seed, 10)
    m.stub_separatrix(j.P)
    C = j.P.constants
    a, p, e, x = m.a, m.p, m.e, m.x

    # what C04 says about the separatrix
    facts, defs = list(m.facts), dict(m.defs)
    ps = V('psep')
    if m.spin == 'schw':
        facts.append(eq(ps, 6 + 2 * e))
    elif m.inc in ('eqpro', 'eqretro'):
        facts += [eq(S_eq(ps, a, e), 0)] + ([lt(1 + e, ps), lt(ps, 6 + 2 * e)] if m.inc == 'eqpro' else [lt(6 + 2 * e, ps)])
    elif m.inc == 'pro':
        pe = V('peq')
        defs['peq'] = lambda env: N.mp.mpf(kerr.separatrix(float(env.get('a', 0)), float(env.get('e', 0)), 1.0))
        facts += [lt(1 + e, pe), lt(pe, 6 + 2 * e), lt(pe, ps)]
    else:
        facts.append(lt(Fraction(52, 10), ps))

    def fn():
        if m.spin == 'kerr':
            r = p / (1 + e)
            lemma(j, 'p/(1+e) is outside the horizon', lt(0, r * r - 2 * r + a * a))
        E, L, Q = [Sym(lift(v)) for v in C.constants_of_motion(a, p, e, x)]
        # the same answers from the single functions, with and without known values
        same(j, 'energy', C.energy(a, p, e, x), E)
        same(j, 'angular_momentum', C.angular_momentum(a, p, e, x), L)
        same(j, 'angular_momentum with E', C.angular_momentum(a, p, e, x, E), L)
        same(j, 'carter_constant', C.carter_constant(a, p, e, x), Q)
        same(j, 'carter_constant with E', C.carter_constant(a, p, e, x, E), Q)
        same(j, 'carter_constant with L', C.carter_constant(a, p, e, x, L=L), Q)
        same(j, 'carter_constant with E and L', C.carter_constant(a, p, e, x, E, L), Q)
        r2 = p / (1 + e)
        if m.inc == 'polar':
            j.zero('L = 0', L)
        else:
            x2 = x * x
            j.zero('polar turning point', Q * x2 - (1 - x2) * (x2 * a ** 2 * (1 - E * E) + L * L))
        if m.ecc == 'marg':
            j.zero('E = 1', E - 1)
            j.zero('radial potential at p/(1+e)', Rpot(r2, a, E, L, Q))
        elif m.inc == 'polar':
            j.zero('radial potential at p/(1+e)', Rpot(r2, a, E, L, Q))
            if m.ecc == 'circ':
                j.zero('derivative at p', dRpot(p, a, E, L, Q))
            else:
                j.zero('radial potential at p/(1-e)', Rpot(p / (1 - e), a, E, L, Q))
        else:
            # f E^2 - 2 g E L - h L^2 - d = 0 at both turning points; the first is checked directly, the second one through
            # the combination without L^2, which is an equality of square roots: squares and signs are compared
            r1 = p if m.ecc == 'circ' else p / (1 - e)
            f1, g1, h1, d1 = coef(r1, m)
            f2, g2, h2, d2 = coefp(r1, m) if m.ecc == 'circ' else coef(r2, m)
            quad = lambda c, E, L: c[0] * E * E - 2 * c[1] * E * L - c[2] * L * L - c[3]
            kappa, rho, sg, eps, eta = d1 * h2 - h1 * d2, f1 * h2 - h1 * f2, g1 * h2 - h1 * g2, d1 * g2 - g1 * d2, f1 * g2 - g1 * f2
            # numerical confirmation of the plain statement at the sample points
            lemma(j, '0 < E < 1', X.cand(lt(0, E), lt(E, 1)))
            lemma_zero(j, 'radial potential at p/(1-e)', Rpot(r1, a, E, L, Q))
            lemma_zero(j, 'second turning point', dRpot(p, a, E, L, Q) if m.ecc == 'circ' else Rpot(r2, a, E, L, Q))
            # exact: energy
            E2 = E * E
            j.zero('energy equation', (rho * rho + 4 * eta * sg) * E2 * E2 - 2 * (kappa * rho + 2 * eps * sg) * E2 + kappa * kappa)
            if m.spin == 'schw':
                # everything but f, h, d vanishes: the energy equation is a square
                j.zero('second turning point', rho * E2 - kappa)
            # from here the energy is a variable
            Ev = cut(j, 'E', E)
            Lc = Sym(lift(C.angular_momentum(a, p, e, x, Ev)))
            j.zero('first turning point', quad((f1, g1, h1, d1), Ev, Lc))
            G = (rho * rho + 4 * eta * sg) * Ev ** 4 - 2 * (kappa * rho + 2 * eps * sg) * Ev * Ev + kappa * kappa
            if m.inc in ('retro', 'eqretro') and m.spin == 'kerr':
                j.ex.assume(lt(0, Ev))
                j.true('sign of L', lt(0, Lc * x), 5)
            # proved above for the energy of the code
            j.ex.assume(eq(rho * Ev * Ev - kappa if m.spin == 'schw' else G, 0))
            j.ex.assume(X.cand(lt(0, Ev), lt(Ev, 1)))
            Y = h1 * Lc + Ev * g1
            Z = h1 * (rho * Ev * Ev - kappa) + 2 * sg * Ev * Ev * g1
            # (2 sg E Y)^2 - Z^2 is a multiple of the energy equation: h1^2 times it, as an identity in E
            if m.spin == 'kerr':
                j.zero('second turning point squared', (2 * sg * Ev * Y) ** 2 - Z * Z + h1 * h1 * G)
                j.true('second turning point sign', le(0, sg * Ev * Y * Z), 5)
            if m.inc in ('pro', 'eqpro') or m.spin == 'schw':
                j.true('sign of L', lt(0, Lc * x), 5)
        if m.ecc == 'marg' and m.inc != 'polar':
            j.true('sign of L', lt(0, L * x), 5)
    j.explore(fn, facts, m.samples, m.names, defs=defs)


def jobs(tier, seed):
    return [(n, job) for n in slices(eccs=('ecc', 'circ', 'marg'), incs=INC + ('polar',))]


META = {
    'budget': {'quick': 100, 'thorough': 300},
    'bounds': 'all 0 <= a < 1, all p above the separatrix, 0 <= e <= 1, |x| <= 1 (30 slices with exact special values); negative spins by C03',
    'outside': 'the value of the separatrix (C04), rounding; signs that the solver leaves undecided (listed in the evidence) are checked at sample points only',
    'stubs': ['separatrix: an unknown number between 1 and p'],
}
