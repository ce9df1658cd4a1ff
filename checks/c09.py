"""C09: orbital frequencies"""
import numpy as np
from .stable import *
from .plunge import Plunge, SLICES
from .rates import *

NAMES = ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam')


def core_of(ups):
    """(c, n) with ups*lam = c n"""
    k, n = X._split(lift(ups * LAM))
    if n.kind == 'a' and len(n.args[1]) == 1 and not n.args[0]:
        (n, c), = n.args[1]
        k = k * c
    return k, n


class Phased:
    """expressions of the two phases ups_r*lam and ups_theta*lam (as variables) and of lam itself"""

    def __init__(self, j, upr, upt, exprs):
        (kr, r), (kt, t) = core_of(upr), core_of(upt)
        ex = j.ex
        for n, c in (('Y_r', r), ('Y_theta', t)):
            ex._def(n, lambda env, c=c: N.evalf(c, env))
        self.var = {'r': X.var('Y_r'), 'theta': X.var('Y_theta')}
        self.k = {'r': kr, 'theta': kt}
        self.map = {r: self.var['r'], t: self.var['theta']}
        self.exprs = X.substitute(exprs, self.map)

    def at(self, n, which, turns):
        """n at phase turns * 2 pi from phase 0"""
        return X.substitute(n, {self.var[which]: X.scale(2 * turns / self.k[which], X.pi()), X.var('q_' + which): X.const(0)})

    def coincides(self, u, which):
        """u*lam is a multiple of the phase (so that it was replaced together with it): that multiple"""
        k, n = core_of(u)
        n = X.substitute(n, self.map)
        return k / self.k[which] if n is self.var[which] else 0

    def periodic(self, j, name, n, which, growth=0):
        """n does not change (grows by growth * 2 pi) when the phase advances by a full turn"""
        y = self.var[which]
        y2 = X.add(y, X.scale(Fraction(2) / self.k[which], X.pi()))
        m, = select([Sym(n)], 'Y_' + which)
        a, b = select([Sym(X.substitute(m, {y: y2})), Sym(m)], 'Y_' + which)
        # the difference of the two, without expanding what they have in common
        g = X.scale(2 * Fraction(growth), X.pi())
        self.equal(j, name, a, X.add(b, g), X.sub(jump(b, {y: y2}, {y: y}) if a is X.substitute(b, {y: y2}) else X.sub(a, b), g))

    def equal(self, j, name, a, b, D):
        if not refute(j, name, X.sub(a, b)):
            return
        f = norm.field(j.ex)
        try:
            pieces = norm.split(D, f)
        except (norm.Failed, ZeroDivisionError):
            pieces = [((), D)]
        for mk, v in pieces:
            j.zero(name + ''.join(' %s^%d' % t for t in mk), v)

    def mean(self, j, name, n, rate):
        """n minus rate*lam depends on the time through the two phases only"""
        lam = X.var('lam')
        n, = select([Sym(n)], 'lam')
        self.equal(j, name, n, X.add(X.substitute(n, {lam: X.const(0)}), X.mul(lift(rate), lam)),
                   X.sub(jump(n, {lam: lam}, {lam: X.const(0)}), X.mul(lift(rate), lam)))


def stable(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    ph = phases()
    F, C = j.P.frequencies, j.P.constants
    A = (m.a, m.p, m.e, m.x)

    def setup():
        consts = constants(j, m)
        facts_constants(j, m, *consts)
        rr, w = roots(j, m, consts)
        vieta(j, m, consts, rr)
        relations(j, m, consts, w)
        return consts, rr

    def identities():
        k, rr = setup()
        if m.spin == 'schw':
            old = j.ex.field_init
            E2 = ((m.p - 2) ** 2 - 4 * m.e ** 2) / (m.p * (m.p - 3 - m.e ** 2))
            lemma_zero(j, 'E without spin', k[0] ** 2 - E2)

            def init(f):
                old(f)
                if m.ecc == 'circ':
                    E1 = (m.p - 2) / (sqrt(m.p) * sqrt(m.p - 3))
                    lemma_zero(j, 'E without spin', k[0] - E1)
                    f.memo[lift(k[0])] = f.el(lift(E1))
                else:
                    f.sqr[f._nodegen(lift(k[0]))] = ('frac', f.el(lift(E2)))
                if m.ecc == 'ecc':
                    for r, s in zip(rr, (1 - m.e, 1 + m.e)):
                        f.memo[lift(r)] = f.mul(f.el(m.p.n), f.inv(f.el(lift(s))))
                lemma_zero(j, 'r3 without spin', rr[2] - 2 * m.p / (m.p - 4))
                f.memo[lift(rr[2])] = f.el(lift(2 * m.p / (m.p - 4)))
            j.ex.field_init = init
            j.ex._field = None
        j.ex.merge = True
        mino, fund = F.mino_frequencies(*A), F.fundamental_frequencies(*A)
        r, t, f, g = F.r_frequency(*A), F.theta_frequency(*A), F.phi_frequency(*A), F.gamma(*A)
        same(j, 'mino frequencies', mino, (r, abs(t), f, g))
        same(j, 'fundamental frequencies', fund, (mino[0] / mino[3], mino[1] / mino[3], mino[2] / mino[3]))
        for n, v, w in [('r: given constants', F.r_frequency(*A, k), r), ('r: constants=', F.r_frequency(*A, constants=k), r), ('theta: given constants', F.theta_frequency(*A, k), t),
                        ('phi: given constants', F.phi_frequency(*A, constants=k), f), ('phi: given upsilon_r', F.phi_frequency(*A, upsilon_r=r), f),
                        ('phi: given upsilon_theta', F.phi_frequency(*A, upsilon_theta=t), f), ('phi: all given', F.phi_frequency(*A, k, r, t), f),
                        ('gamma: given constants', F.gamma(*A, constants=k), g), ('gamma: given upsilon_r', F.gamma(*A, upsilon_r=r), g),
                        ('gamma: given upsilon_theta', F.gamma(*A, upsilon_theta=t), g), ('gamma: all given', F.gamma(*A, k, r, t), g)]:
            same(j, n, v, w)
        z = C.stable_polar_roots(*A)
        same(j, 'from constants: mino', F._mino_frequencies_from_constants(m.a, k, rr, z), mino)
        same(j, 'from constants: fundamental', F._fundamental_frequencies_from_constants(m.a, k, rr, z), fund)
        if m.spin == 'schw':
            s = sqrt(m.p - 3 - m.e ** 2)
            same(j, 'without spin: upsilon_theta', mino[1], m.p / s)
            same(j, 'without spin: upsilon_phi', mino[2], m.p / s * (1 if m.inc in ('pro', 'eqpro') else -1))
            if m.ecc == 'circ':
                same(j, 'without spin: upsilon_r', mino[0], sqrt(m.p) * sqrt(m.p - 6) / s)
                same(j, 'without spin: gamma', mino[3], m.p ** 2 / s * sqrt(m.p))

    def orbit():
        setup()
        j.ex.merge = True
        mino, fund = F.mino_frequencies(*A), F.fundamental_frequencies(*A)
        o = j.P.stable.StableOrbit(*A)
        same(j, 'orbit: mino', o.mino_frequencies(), mino)
        same(j, 'orbit: fundamental', o.fundamental_frequencies(), fund)
        same(j, 'orbit: attributes', (o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma, o.omega_r, o.omega_theta, o.omega_phi), mino + fund)

    def trajectory():
        consts, rr = setup()
        j.ex.merge = True
        T, R, Th, Ph = [lift(f(LAM)) for f in j.P.stable.stable_trajectory(*A, ph)]
        mino = F.mino_frequencies(*A)
        j.ex.merge = False
        return rr, T, R, Th, Ph, mino

    def motion():
        rr, T, R, Th, Ph, mino = trajectory()
        f = Phased(j, mino[0], mino[1], [T, R, lift(cos(Sym(Th))), Ph])
        T, R, ct, Ph = f.exprs
        if m.ecc == 'ecc':
            f.periodic(j, 'r', R, 'r')
            j.zero('radial phase 0: p/(1+e)', X.sub(f.at(R, 'r', 0), lift(rr[1])))
            j.zero('half a radial period later: p/(1-e)', X.sub(f.at(R, 'r', Fraction(1, 2)), lift(rr[0])))
        if not m.inc.startswith('eq'):
            f.periodic(j, 'cos theta', ct, 'theta')
            j.zero('half a polar period', X.add(f.at(ct, 'theta', 0), f.at(ct, 'theta', Fraction(1, 2))))
        for n, t, u in (('t', T, mino[3]), ('phi', Ph, mino[2])):
            grow = {w: f.coincides(u, w) for w in ('r', 'theta')}
            f.mean(j, 'mean rate of ' + n, t, K(0) if any(grow.values()) else u)
            for w in ('r', 'theta'):
                f.periodic(j, '%s and the %s phase' % (n, w), t, w, grow[w])
    j.check_sides = False
    import os
    want = os.environ.get('PART', 'identities orbit motion')
    for n, fn in (('identities', identities), ('orbit', orbit), ('motion', motion)):
        if n in want:
            j.explore(fn, m.facts, phase_samples(m, 1), m.names + NAMES, defs=m.defs, scope=j.name + ' ' + n)


def plunge(j):
    m = Plunge(j.name, j.seed, 6)
    ph = phases()
    k = (m.a, m.E, m.L, m.Q)

    def fn():
        m.register(j)
        if m.kind != 'complex':
            j.ex.known_polys[:] = j.ex.known_polys[-2:]
        S.decide(X.lt(m.L.n, X.const(0)))
        j.ex.merge = True
        T, R, Th, Ph = [lift(f(LAM)) for f in j.P.plunge.plunging_trajectory(*k, ph)]
        ups = j.P.frequencies.plunging_mino_frequencies(*k)
        o = j.P.plunge.PlungingOrbit(*k, ph)
        j.ex.merge = False
        same(j, 'orbit', (o.upsilon_r, o.upsilon_theta), ups)
        ct = lift(cos(Sym(Th)))
        f = Phased(j, ups[0], ups[1], [R, ct])
        R, ct = f.exprs
        if any(v.kind == 'v' and v.args == 'lam' for v in X.walk([R, ct])):
            return j._record('phases', 'unresolved', 'the time does not occur in phases only')
        r1, r2 = m.roots[:2] if m.kind == 'complex' else (m.roots[1], m.roots[0])
        f.periodic(j, 'r', R, 'r')
        j.zero('radial phase 0: the inner turning point', X.sub(f.at(R, 'r', 0), lift(r1)))
        j.zero('half a radial period later: the outer one', X.sub(f.at(R, 'r', Fraction(1, 2)), lift(r2)))
        if not m.eq:
            f.periodic(j, 'cos theta', ct, 'theta')
            j.zero('half a polar period', X.add(f.at(ct, 'theta', 0), f.at(ct, 'theta', Fraction(1, 2))))
    j.check_sides = False
    j.explore(fn, m.facts + [ne(m.L, 0)], phase_samples(m, 1), m.names + NAMES, defs=m.defs)


def jobs(tier, seed):
    return [(n, stable) for n in slices()] + [(n, plunge) for n in SLICES]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'stable: all 0 <= a < 1, p above the separatrix, 0 <= e < 1, x != 0 (16 slices with exact special values), every combination of the optional arguments used alone or together; plunging (radial and polar frequency only): all 0 < a < 1, 0 < E < 1, L != 0, Q >= 0; every Mino time and initial phases',
    'outside': 'that the constants and roots are right (C01, C05); that t and phi obey their own equations (C08); a frequency of the wrong sign given as an optional argument; the numerical accuracy of scipy.special',
    'stubs': ['separatrix: an unknown number between 1 and p', 'scipy elliptic functions and integrals: characterised by their periodicity, special values and parity', 'roots of the radial and polar polynomials of plunges: variables with their defining relations'],
}
