"""C27: initial phases and Mino time"""
from .stable import *
from .plunge import Plunge, SLICES
from .rates import *
from .c21 import from_conditions, XV

NAMES = ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam', 's')


def shifts(j, name, tr, ups):
    """tr(phases): the trajectory with these phases"""
    ph = phases()
    z = K(0)
    s = V('s')

    def at(f, l):
        return lift(f(l))
    P = tr(ph)
    r0, th0 = tr((z, ph[1], z, z)), tr((z, z, ph[2], z))
    zero = tr((z, z, z, z))
    same(j, name + ': radial phase is a time', P[1](LAM), zero[1](LAM + ph[1] / ups[0]))
    same(j, name + ': only the radial phase shifts r', r0[1](LAM), P[1](LAM))
    same(j, name + ': polar phase is a time', cos(P[2](LAM)), cos(zero[2](LAM + ph[2] / ups[1])))
    same(j, name + ': only the polar phase shifts theta', cos(th0[2](LAM)), cos(P[2](LAM)))
    flat = tr((z, ph[1], ph[2], z))
    later = tr((z, ph[1] + ups[0] * s, ph[2] + ups[1] * s, z))
    for n, c in (('t', 0), ('phi', 3)):
        equal(j, '%s: initial value of %s' % (name, n), P[c](LAM), flat[c](LAM) + ph[c])
        equal(j, '%s: %s from a later start' % (name, n), later[c](LAM), P[c](LAM + s) - P[c](s))


def equal(j, name, a, b):
    """two large sums are equal: compared value by value of their opaque functions"""
    a, b = lift(a), lift(b)
    if a is b or not refute(j, name, X.sub(a, b)):
        if a is b:
            j._record(name, 'proved', 'identical')
        return
    f = norm.field(j.ex)
    D = X.sub(a, b)
    try:
        pieces = norm.split(D, f)
    except (norm.Failed, ZeroDivisionError):
        pieces = [((), D)]
    for mk, v in pieces:
        j.zero(name + ''.join(' %s^%d' % w for w in mk), v)


def orbits(j, ph, other, made, tr):
    """an orbit uses its own phases unless others are given"""
    for n, o in made:
        for how, args, p in (('own phases', (), ph), ('given phases', (other,), other)):
            for c, g, w in zip(('t', 'r', 'theta', 'phi'), o.trajectory(*args), tr(p)):
                equal(j, '%s, %s: %s' % (n, how, c), g(LAM), w(LAM))


def stable(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    ph, other = phases(), phases('b')
    A = (m.a, m.p, m.e, m.x)
    box = [None]
    make = from_conditions(j, True, None, A, m.a, ph)
    patch(j.P, j.P.orbit.constants_from_initial_conditions, lambda *s, **kw: box[0])

    def tr(p):
        return j.P.stable.stable_trajectory(*A, p)

    def setup():
        k = box[0] = constants(j, m)
        facts_constants(j, m, *k)
        rr, w = roots(j, m, k)
        relations(j, m, k, w)
        j.ex.merge = True

    def fn():
        setup()
        ups = j.P.frequencies.mino_frequencies(*A)
        shifts(j, 'stable', tr, ups)

    def objects():
        setup()
        C = j.P.stable.StableOrbit
        orbits(j, ph, other, [('StableOrbit', C(*A, ph)), ('Orbit', make())], tr)
        orbits(j, (K(0),) * 4, other, [('StableOrbit without phases', C(*A))], tr)
    run(j, m, fn, objects, m.facts)


def plunge(j):
    m = Plunge(j.name, j.seed, 6)
    ph, other = phases(), phases('b')
    k = (m.E, m.L, m.Q)
    make = from_conditions(j, False, k, None, m.a, ph)

    def tr(p):
        return j.P.plunge.plunging_trajectory(m.a, *k, p)

    def setup():
        m.register(j)
        if m.kind != 'complex':
            j.ex.known_polys[:] = j.ex.known_polys[-2:]
        S.decide(X.lt(m.L.n, X.const(0)))
        j.ex.merge = True

    def fn():
        setup()
        shifts(j, 'plunging', tr, j.P.frequencies.plunging_mino_frequencies(m.a, *k))

    def objects():
        setup()
        C = j.P.plunge.PlungingOrbit
        orbits(j, ph, other, [('PlungingOrbit', C(m.a, *k, ph)), ('Orbit', make())], tr)
        if not m.eq:        # it would start at the singularity
            orbits(j, (K(0),) * 4, other, [('PlungingOrbit without phases', C(m.a, *k))], tr)
    run(j, m, fn, objects, m.facts + [ne(m.L, 0)])


def run(j, m, fn, objects, facts):
    smp = [dict(d, s=q(m.rnd, -3, 3), **{n + 'b': q(m.rnd, -5, 5) for n in NAMES[:4]}, **XV) for d in phase_samples(m, 1)]
    j.check_sides = False
    for n, f in (('shifts', fn), ('objects', objects)):
        j.explore(f, facts, smp, m.names + NAMES + tuple(n + 'b' for n in NAMES[:4]), defs=m.defs, scope='%s %s' % (j.name, n))


def jobs(tier, seed):
    return [(n, stable) for n in slices()] + [(n, plunge) for n in SLICES]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'stable: all 0 <= a < 1, p above the separatrix, 0 <= e < 1, x != 0 (16 slices with exact special values); plunging: all 0 < a < 1, 0 < E < 1, L != 0, Q >= 0 (6 slices); every Mino time, shift and initial phases; StableOrbit, PlungingOrbit and Orbit',
    'outside': 'the numerical accuracy of scipy.special',
    'stubs': ['separatrix: an unknown number between 1 and p', 'for Orbit: the classification, constants, parameters and phases computed from initial conditions are those of the slice', 'roots of the radial and polar polynomials of plunges: variables with their defining relations',
              'scipy elliptic functions and integrals: characterised by their periodicity, special values and parity'],
}
