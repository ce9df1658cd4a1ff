"""C05: the radial and polar roots solve the potentials, in the documented order"""
from .common import *
from .stable import *
from .plunge import Plunge
from .plunge import SLICES as PSLICES


def stable_job(j):
    m = Stable(j.name, j.seed, 8)
    m.stub_separatrix(j.P)
    C = j.P.constants
    a, p, e, x = m.a, m.p, m.e, m.x
    E, L, Q = V('E'), V('L'), V('Q')

    def arbitrary():
        # arbitrary constants: sum and product of the roots, so R(r) - (1-E^2)(r1-r)(r-r2)(r-r3)(r-r4) = c2 r^2 + c1 r
        rr = [Sym(lift(v)) for v in C.stable_radial_roots(a, p, e, x, (E, L, Q))]
        if len(rr) != 4:
            return j.fail('four roots')
        r1, r2, r3, r4 = rr
        k = 1 - E * E
        w1, w2 = p / (1 - e), p / (1 + e)
        same(j, 'r1', r1, w1)
        same(j, 'r2', r2, w2)
        j.zero('sum of the roots', k * (r1 + r2 + r3 + r4) - 2)
        j.zero('product of the roots', k * r1 * r2 * r3 * r4 - a * a * Q)
        j.true('r3 >= r4', le(r4, r3))
        # with R(r1) = R(r2) = 0 (C01; R'(p) = 0 for e = 0) both coefficients vanish
        c2 = (a * a * (E * E - 1) - L * L - Q) + k * (r1 * r2 + r1 * r3 + r1 * r4 + r2 * r3 + r2 * r4 + r3 * r4)
        c1 = (2 * L * L + 2 * Q + 2 * a * a * E * E - 4 * a * E * L) - k * (r1 * r2 * r3 + r1 * r2 * r4 + r1 * r3 * r4 + r2 * r3 * r4)
        j.zero('R(r1) = c2 r1^2 + c1 r1', Rpot(w1, a, E, L, Q) - c2 * w1 * w1 - c1 * w1)
        j.zero('R(r2) = c2 r2^2 + c1 r2', Rpot(w2, a, E, L, Q) - c2 * w2 * w2 - c1 * w2)
        y1, y2 = V('c1'), V('c2')
        j.ex.assume(X.cand(eq(y2 * w1 * w1 + y1 * w1, 0), eq(2 * y2 * p + y1, 0) if m.ecc == 'circ' else eq(y2 * w2 * w2 + y1 * w2, 0)))
        j.true('both coefficients vanish', X.cand(eq(y1, 0), eq(y2, 0)))

    def polar(k=None):
        z = C.stable_polar_roots(a, p, e, x, (E, L, Q))
        same(j, 'z_minus', z[0], 1 - x * x)
        if m.spin == 'schw':
            same(j, 'z_plus', z[1], float('nan'))
        else:
            zp = Sym(lift(z[1]))
            k = a * a * (1 - E * E)
            # with the polar turning point relation (C01)
            Qv = (1 - x * x) * (k + L * L / (x * x))
            j.zero('sum', k * (1 - x * x + zp) - (Qv + k + L * L))
            j.zero('product', k * (1 - x * x) * zp - Qv)
            j.true('z_minus < z_plus', X.cand(lt(1 - x * x, zp), le(1, zp)))

    def own():
        # the constants belong to the orbit
        k = constants(j, m)
        facts_constants(j, m, *k)
        rr = C.stable_radial_roots(a, p, e, x, k)
        same(j, 'radial roots without constants', C.stable_radial_roots(a, p, e, x), rr)
        r1, r2, r3, r4 = [Sym(lift(v)) for v in rr]
        for n, c in (('r1 >= r2', le(r2, r1)), ('r2 > r3', lt(r3, r2)), ('r3 outside the horizon', lt(1, r3)), ('r4 >= 0', le(0, r4))):
            lemma(j, n, c)
        for n, r in (('r1', r1), ('r2', r2), ('r3', r3), ('r4', r4)):
            lemma_zero(j, 'R(%s)' % n, Rpot(r, a, *k))
        z = C.stable_polar_roots(a, p, e, x, k)
        same(j, 'polar roots without constants', C.stable_polar_roots(a, p, e, x), z)
        if m.spin == 'kerr':
            lemma_zero(j, 'polar potential at z_minus', Tpot(Sym(lift(z[0])), a, *k))
            lemma_zero(j, 'polar potential at z_plus', Tpot(Sym(lift(z[1])), a, *k))
    rnd = m.rnd
    def energy(s):
        # the other two roots are positive
        t = s['p'] / (1 - s['e']) + s['p'] / (1 + s['e']) + q(rnd, 1, 3)
        return Fraction(round(10 ** 9 * (1 - 2 / float(t)) ** .5), 10 ** 9)
    free = [dict(s, E=energy(s), L=q(rnd, 1, 4) * (1 if 'retro' not in m.inc else -1), Q=Fraction(0) if m.inc.startswith('eq') else q(rnd, 0, 1)) for s in m.samples]
    ws = p / (1 - e) + p / (1 + e)
    k = 1 - E * E
    pos = 2 / k - ws
    dom = [lt(0, pos), le(0, pos * pos - 4 * a * a * Q * (1 - e) * (1 + e) / (p * p * k))] + m.facts + [lt(0, E), lt(E, 1), ne(L, 0), le(0, Q)]
    j.check_sides = False
    j.explore(arbitrary, dom, free, m.names, defs=m.defs)
    j.explore(polar, dom, free, m.names, defs=m.defs)
    j.explore(own, m.facts, m.samples, m.names, defs=m.defs)


def plunge_job(j):
    m = Plunge(j.name, j.seed, 10)
    C = j.P.constants

    def fn():
        m.register(j)
        rr = C.plunging_radial_roots(m.a, m.E, m.L, m.Q)
        if m.kind == 'complex':
            r1, r2, re, im = m.roots
            same(j, 'real roots', rr[:2], (r1, r2))
            z3, z4 = S.SymComplex.of(rr[2]), S.SymComplex.of(rr[3])
            for z in (z3, z4):
                same(j, 'real part', z.re, re)
            j.zero('conjugate', z3.im + z4.im)
            j.zero('imaginary part', z4.im * z4.im - im * im)
        else:
            same(j, 'roots', rr, m.roots)
            r1, r2, r3, r4 = [Sym(lift(v)) for v in rr]
            j.true('the motion crosses the horizons', X.cand(lt(1 + m.w, r1), lt(r2, 1 - m.w)))
        for r in (rr[:2] if m.kind == 'complex' else rr):
            lemma_zero(j, 'R', Rpot(Sym(lift(r)), m.a, m.E, m.L, m.Q))
    j.explore(fn, m.facts, m.samples, m.names, defs=m.defs)


def jobs(tier, seed):
    return [(n, stable_job) for n in slices()] + [(n, plunge_job) for n in PSLICES]


META = {
    'budget': {'quick': 90, 'thorough': 300},
    'bounds': 'stable orbits: all 0 <= a < 1, p, 0 <= e < 1, x != 0 and arbitrary constants 0 < E < 1; plunges: all 0 < a < 1, 0 < E < 1, L, Q >= 0 with simple roots',
    'outside': 'that the turning points belong to the constants (C01), that r3 < p/(1+e) outside the separatrix (checked at sample points; C04), double roots, rounding inside numpy.roots',
    'stubs': ['separatrix: an unknown number between 1 and p', 'numpy polynomial roots: the exact roots of the polynomial the code passes, as unknowns in order'],
}
