"""C07: radial and polar motion of stable orbits"""
from .stable import *
from .motion import *


def job(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    ph = phases()
    NAMES = m.names + ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam')

    def setup():
        consts = constants(j, m)
        facts_constants(j, m, *consts)
        rr, w = roots(j, m, consts)
        vieta(j, m, consts, rr)
        relations(j, m, consts, w)
        return consts, rr, w

    def fn():
        (E, L, Q), (r1, r2, r3, r4), w = setup()
        t, r, th, phi = j.P.stable.stable_trajectory(m.a, m.p, m.e, m.x, ph)
        R, T = r(LAM), th(LAM)
        dR, dT = rate(R), rate(T)
        ct = cos(T)
        zm = 1 - m.x * m.x
        j.zero('radial equation', dR * dR - (1 - E * E) * (r1 - R) * (R - r2) * (R - r3) * (R - r4))
        el = elliptic(R)
        if el:
            # r - r2 and r1 - r are squares times positive factors
            s2, c2 = Sym(X.fn('sn', *el[0])) ** 2, Sym(X.fn('cn', *el[0])) ** 2
            d = (r1 - r3) - (r1 - r2) * s2
            j.true('positive denominator', lt(0, d))
            j.zero('r >= p/(1+e)', R - r2 - (r2 - r3) * (r1 - r2) * s2 / d)
            j.zero('r <= p/(1-e)', r1 - R - (r1 - r3) * (r1 - r2) * c2 / d)
        else:
            j.true('r >= p/(1+e)', le(r2, R))
            j.true('r <= p/(1-e)', le(R, r1))
        if m.inc.startswith('eq'):
            j.zero('stays in the equatorial plane', ct)
            j.zero('no polar motion', dT)
        else:
            st2 = 1 - ct * ct
            j.zero('polar equation', dT * dT * st2 - (Q * st2 - ct * ct * (m.a ** 2 * (1 - E * E) * st2 + L * L)))
            j.true('cos^2 theta <= 1 - x^2', le(ct * ct, zm))

    def start():
        (E, L, Q), (r1, r2, r3, r4), w = setup()
        z = (K(0),) * 4
        for n, tr in (('zero phases', j.P.stable.stable_trajectory(m.a, m.p, m.e, m.x, z)), ('default phases', j.P.stable.stable_trajectory(m.a, m.p, m.e, m.x))):
            t, r, th, phi = tr
            j.zero(n + ': starts at p/(1+e)', r(K(0)) - r2)
            j.zero(n + ': cos theta', cos(th(K(0))) ** 2 - (1 - m.x ** 2))
            j.true(n + ': northern hemisphere', le(0, cos(th(K(0)))))
            # d/dlambda(dr/dlambda) > 0 at the start: moves outward; away from the pole
            if m.ecc != 'circ':
                j.true(n + ': moves outward', lt(0, rate(rate(r(LAM))).subst({'lam': 0}) if hasattr(Sym, 'subst') else at0(rate(rate(r(LAM))))))
            if not m.inc.startswith('eq'):
                j.true(n + ': moves away from the pole', lt(at0(rate(rate(cos(th(LAM))))), 0))
            j.zero(n + ': half a radial period', at0(r(LAM), at=PI / upsilon(j, m)[0]) - r1)

    def upsilon(j, m):
        return j.P.frequencies.mino_frequencies(m.a, m.p, m.e, m.x)

    def at0(n, at=0):
        return Sym(X.substitute([lift(n)], {X.var('lam'): lift(at)})[0])
    j.check_sides = False
    j.explore(fn, m.facts, phase_samples(m), NAMES, defs=m.defs)
    j.explore(start, m.facts, [dict(s, q_t=0, q_r=0, q_theta=0, q_phi=0, lam=0) for s in phase_samples(m, 1)], NAMES, defs=m.defs)


def jobs(tier, seed):
    return [(n, job) for n in slices()]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'all 0 <= a < 1, p above the separatrix, 0 <= e < 1, x != 0 (16 slices with exact special values), every Mino time and initial phases',
    'outside': 'that the roots are those of the potentials (C01, C05), the numerical accuracy of scipy.special',
    'stubs': ['separatrix: an unknown number between 1 and p', 'scipy elliptic functions: characterised by their algebraic relations, derivatives, special values and parity'],
}
