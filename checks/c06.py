"""C06: the orbital parameters are recovered from the constants of motion"""
from .common import *
from .stable import *


def job(j):
    m = Stable(j.name, j.seed, 8)
    m.stub_separatrix(j.P)
    C = j.P.constants
    a, p, e, x = m.a, m.p, m.e, m.x
    M, mu = V('M'), V('mu')
    ph = tuple(V('q_' + k) for k in ('t', 'r', 'theta', 'phi'))

    def fn():
        if m.ecc == 'ecc':
            t1, t2 = p / (1 - e), p / (1 + e)
            j.zero('p from the turning points', 2 * t1 * t2 / (t1 + t2) - p)
            j.zero('e from the turning points', (t1 - t2) / (t1 + t2) - e)
        k = constants(j, m)
        facts_constants(j, m, *k)
        rr, w = roots(j, m, k)
        E, L, Q = k
        # the turning points are variables now
        wp, we = (2 * rr[0] * rr[1] / (rr[0] + rr[1]), (rr[0] - rr[1]) / (rr[0] + rr[1])) if m.ecc == 'ecc' else (p, e)
        b = a * a * (1 - E * E)
        ex = j.ex
        # C05: the radial polynomial has these roots; C01: the polar one has the root 1 - x^2
        ex.known_polys.append(([lift(c) for c in (-a * a * Q, 2 * L ** 2 + 2 * Q + 2 * a ** 2 * E ** 2 - 4 * a * E * L, a * a * E * E - L * L - Q - a * a, K(2), E * E - 1)],
                               list(rr[::-1])))
        if m.spin == 'kerr':
            ex.known_polys.append(([lift(c) for c in (Q, -(Q + b + L * L), b)], [1 - x * x, 1 + L * L / (b * x * x)]))
        same(j, 'apex_from_constants', C.apex_from_constants(a, E, L, Q), (a, wp, we, x))
        got = []

        class Rec(j.P.stable.StableOrbit):
            def __init__(self, *s, **kw):
                got.append((s, kw))
        o = Rec.from_constants(a, E, L, Q, ph, M, mu)
        j.true('from_constants builds one orbit', X.TRUE if isinstance(o, Rec) and len(got) == 1 else X.FALSE)
        s, kw = got[0]
        for v, (n, d) in zip(s, (('a', 0), ('p', 0), ('e', 0), ('x', 0), ('initial_phases', 0), ('M', 0), ('mu', 0))):
            kw[n] = v
        for n, v in (('a', a), ('p', wp), ('e', we), ('x', x), ('initial_phases', ph), ('M', M), ('mu', mu)):
            same(j, 'from_constants ' + n, kw.get(n), v)
        got.clear()
        Rec.from_constants(a, E, L, Q)
        same(j, 'from_constants default phases', got[0][0][4] if len(got[0][0]) > 4 else got[0][1].get('initial_phases', (0, 0, 0, 0)), (0, 0, 0, 0))
        for n, i in (('M', 5), ('mu', 6)):
            v = got[0][0][i] if len(got[0][0]) > i else got[0][1].get(n)
            j.true('from_constants default ' + n, X.TRUE if v is None else X.FALSE)
    extra = {'M': Fraction(10), 'mu': Fraction(2), 'q_t': Fraction(1, 3), 'q_r': Fraction(5, 7), 'q_theta': Fraction(9, 5), 'q_phi': Fraction(2, 3)}
    j.check_sides = False
    j.explore(fn, m.facts, [dict(s, **extra) for s in m.samples], m.names, defs=m.defs)


def jobs(tier, seed):
    return [(n, job) for n in slices()]


META = {
    'budget': {'quick': 90, 'thorough': 300},
    'bounds': 'all 0 <= a < 1, p above the separatrix, 0 <= e < 1, x != 0 (16 slices with exact special values)',
    'outside': 'that the roots of the radial and polar polynomials are the turning points (C01, C05); rounding in numpy.roots (double roots of circular orbits are accurate to 1e-7 only)',
    'stubs': ['separatrix: an unknown number between 1 and p', 'numpy polynomial roots: the exact roots in order'],
}
