"""C21: trajectory deltas"""
from .stable import *
from .plunge import Plunge, SLICES
from .rates import *
from .c09 import Phased

NAMES = ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam')


def linear(j, name, o, given, ups, lin):
    """t and phi of the orbit are the deltas plus slope*lam plus a constant"""
    arg = () if given is None else (given,)
    j.ex.merge = True
    T, Ph = [lift(o.trajectory(*arg)[i](LAM)) for i in (0, 3)]
    d = [lift(f(u * LAM)) for f, u in zip(o.trajectory_deltas(*arg), (ups[0], ups[1], ups[0], ups[1]))]
    j.ex.merge = False
    lam = X.var('lam')
    z = {lam: X.const(0)}
    for n, t, a, b, s in (('t', T, d[0], d[1], lin[0]), ('phi', Ph, d[2], d[3], lin[1])):
        g = X.sub(t, X.add(a, b))
        if contains(g, 'lam'):
            g, = select([Sym(g)], 'lam')
        s = lift(s)
        if not refute(j, '%s: %s' % (name, n), X.sub(g, X.add(X.substitute(g, z), X.mul(s, lam)))):
            continue
        D = X.sub(jump(g, {lam: lam}, z), X.mul(s, lam))
        f = norm.field(j.ex)
        try:
            pieces = norm.split(D, f)
        except (norm.Failed, ZeroDivisionError):
            pieces = [((), D)]
        for mk, v in pieces:
            j.zero('%s: %s%s' % (name, n, ''.join(' %s^%d' % w for w in mk)), v)
    j.ex.merge = True


def repeats(j, name, o):
    """the deltas have period 2 pi"""
    y = X.var('Y')
    if 'Y' not in j.ex.vardefs:
        j.ex._def('Y', lambda env: 3 * N.evalf(X.var('lam'), env))
    j.ex.merge = True
    d = [lift(f(Sym(y))) for f in o.trajectory_deltas()]
    j.ex.merge = False
    y2 = X.add(y, X.scale(2, X.pi()))
    for n, t in zip(('t_r', 't_theta', 'phi_r', 'phi_theta'), d):
        m, = select([Sym(t)], 'Y')
        a, b = select([Sym(X.substitute(m, {y: y2})), Sym(m)], 'Y')
        Phased.equal(None, j, '%s: %s repeats' % (name, n), a, b, jump(b, {y: y2}, {y: y}) if a is X.substitute(b, {y: y2}) else X.sub(a, b))
    j.ex.merge = True


def from_conditions(j, st, k, par, a, ph):
    """an Orbit whose initial conditions have the given constants and phases"""
    P = j.P
    IC = P.initial_conditions
    patch(P, IC.is_stable, lambda *s, **kw: st)
    patch(P, IC.constants_from_initial_conditions, lambda *s, **kw: k)
    for n in ('stable_orbit_initial_phases', 'plunging_orbit_initial_phases'):
        patch(P, getattr(IC, n), lambda *s, **kw: ph)
    if par:
        patch(P, P.constants.apex_from_constants, lambda *s: par)
    P.spacetime.KerrSpacetime.norm = lambda *s: K(-1)
    return lambda: P.orbit.Orbit(a, tuple(V('x%d' % i) for i in range(4)), tuple(V('v%d' % i) for i in range(4)))


XV = {'%s%d' % (c, i): Fraction(k + 1, 7) for c in 'xv' for k, i in enumerate(range(4))}


def stable(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    ph, other = phases(), phases('b')
    A = (m.a, m.p, m.e, m.x)
    C = j.P.stable.StableOrbit
    box = [None]
    make = from_conditions(j, True, None, A, m.a, ph)
    patch(j.P, j.P.orbit.constants_from_initial_conditions, lambda *s, **kw: box[0])

    def setup():
        k = box[0] = constants(j, m)
        facts_constants(j, m, *k)
        rr, w = roots(j, m, k)
        relations(j, m, k, w)
        j.ex.merge = True

    def fn():
        setup()
        f = j.P.frequencies.mino_frequencies(*A)
        ups, lin = f[:2], (f[3], f[2])
        linear(j, 'stable orbit', C(*A, ph), None, ups, lin)
        linear(j, 'stable orbit, given phases', C(*A, other), ph, ups, lin)
        o = make()
        linear(j, 'orbit from initial conditions', o, None, (o.upsilon_r, o.upsilon_theta), (o.gamma, o.upsilon_phi))
        linear(j, 'orbit from initial conditions, given phases', o, other, (o.upsilon_r, o.upsilon_theta), (o.gamma, o.upsilon_phi))
    smp = [dict(s, **{k + 'b': q(m.rnd, -5, 5) for k in NAMES[:4]}, **XV) for s in phase_samples(m, 1)]
    j.check_sides = False
    j.explore(fn, m.facts, smp, m.names + NAMES, defs=m.defs)
    j.explore(lambda: (setup(), repeats(j, 'stable orbit', C(*A, ph))), m.facts, smp, m.names + NAMES, defs=m.defs)


def plunge(j):
    m = Plunge(j.name, j.seed, 6)
    ph, other = phases(), phases('b')
    k = (m.E, m.L, m.Q)
    C = j.P.plunge.PlungingOrbit
    F = j.P.frequencies
    make = from_conditions(j, False, k, None, m.a, ph)

    def setup():
        m.register(j)
        if m.kind != 'complex':
            j.ex.known_polys[:] = j.ex.known_polys[-2:]
        S.decide(X.lt(m.L.n, X.const(0)))
        j.ex.merge = True

    def fn():
        setup()
        ups = F.plunging_mino_frequencies(m.a, *k)
        lin = (K(0), K(0))
        if m.kind != 'complex':
            f = F._mino_frequencies_from_constants(m.a, k, m.roots, (m.zm, m.zp))
            lin = (f[3], f[2])
        linear(j, 'plunging orbit', C(m.a, *k, ph), None, ups, lin)
        linear(j, 'plunging orbit, given phases', C(m.a, *k, other), ph, ups, lin)
        o = make()
        linear(j, 'orbit from initial conditions', o, None, (o.upsilon_r, o.upsilon_theta), lin)
        linear(j, 'orbit from initial conditions, given phases', o, other, (o.upsilon_r, o.upsilon_theta), lin)
    smp = [dict(s, **{n + 'b': q(m.rnd, -5, 5) for n in NAMES[:4]}, **XV) for s in phase_samples(m, 1)]
    j.check_sides = False
    facts = m.facts + [ne(m.L, 0)]
    j.explore(fn, facts, smp, m.names + NAMES, defs=m.defs)
    if m.kind != 'complex':
        j.explore(lambda: (setup(), repeats(j, 'plunging orbit', C(m.a, *k, ph))), facts, smp, m.names + NAMES, defs=m.defs)


def jobs(tier, seed):
    return [(n, stable) for n in slices()] + [(n, plunge) for n in SLICES]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'stable: all 0 <= a < 1, p above the separatrix, 0 <= e < 1, x != 0 (16 slices with exact special values); plunging: all 0 < a < 1, 0 < E < 1, L != 0, Q >= 0 (6 slices); every Mino time, initial phases and given phases; StableOrbit, PlungingOrbit and Orbit',
    'outside': 'for Orbit: that the constants, parameters and phases fit the initial conditions (C06, C14-C17); the numerical accuracy of scipy.special',
    'stubs': ['separatrix: an unknown number between 1 and p', 'for Orbit: the classification, constants, parameters and phases computed from initial conditions are those of the slice', 'roots of the radial and polar polynomials of plunges: variables with their defining relations',
              'scipy elliptic functions and integrals: characterised by their periodicity, special values and parity'],
}
