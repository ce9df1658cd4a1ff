"""C03: (-a, p, e, x) is the same orbit as (a, p, e, -x)"""
from .common import *
from .stable import *
from symk import numeric as N

NAMES = ('a', 'p', 'e', 'x', 'lam', 'q_t', 'q_r', 'q_theta', 'q_phi')
CONST = ('energy', 'angular_momentum', 'carter_constant', 'constants_of_motion', 'stable_radial_roots', 'stable_polar_roots')
FREQ = ('r_frequency', 'theta_frequency', 'phi_frequency', 'gamma', 'mino_frequencies', 'fundamental_frequencies')
ATTR = ('a', 'p', 'e', 'x', 'E', 'L', 'Q', 'upsilon_r', 'upsilon_theta', 'upsilon_phi', 'gamma', 'omega_r', 'omega_theta', 'omega_phi',
        'stable', 'initial_phases', 'M', 'mu')


def evald(j, name, got, want, lam):
    if len(got) != len(want):
        return j.fail(name, 'has the wrong length')
    for k, (g, w) in enumerate(zip(got, want)):
        same(j, '%s[%d]' % (name, k), g(lam), w(lam))


def both(j, m, name, f, a, x):
    """f for the two descriptions of the orbit"""
    same(j, name, f(-a, m.p, m.e, -x), f(a, m.p, m.e, x))


def job(j):
    part = j.name.split(': ')[1]
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    P = j.P
    P.constants.separatrix_real = None
    lam = V('lam')
    ph = tuple(V('q_' + k) for k in ('t', 'r', 'theta', 'phi'))
    smp = [dict(s, lam=q(m.rnd, -2, 2), q_t=q(m.rnd, -5, 5), q_phi=q(m.rnd, -5, 5), q_r=q(m.rnd, -9, 9), q_theta=q(m.rnd, -9, 9)) for s in m.samples]

    def fn():
        a, p, e, x = m.a, m.p, m.e, m.x
        if part == 'constants':
            for n in CONST:
                if n == 'stable_polar_roots' and m.inc == 'polar' or n.startswith('stable_') and m.ecc == 'marg':
                    continue
                both(j, m, n, getattr(P.constants, n), a, x)
            E, L = P.constants.energy(a, p, e, x), V('L0')
            both(j, m, 'angular_momentum given E', lambda *s: P.constants.angular_momentum(*s, E), a, x)
            both(j, m, 'carter_constant given E, L', lambda *s: P.constants.carter_constant(*s, E, L), a, x)
        elif part == 'frequencies':
            for n in FREQ:
                both(j, m, n, getattr(P.frequencies, n), a, x)
            k = (V('E0'), V('L0'), V('Q0'))
            for n in FREQ[:4]:
                both(j, m, n + ' given constants', lambda *s: getattr(P.frequencies, n)(*s, k), a, x)
        else:
            k = constants(j, m)
            roots(j, m, k)
        if part == 'trajectory':
            f = P.stable.stable_trajectory
            evald(j, 'trajectory', f(-a, p, e, -x, ph), f(a, p, e, x, ph), lam)
            evald(j, 'default trajectory', f(-a, p, e, -x), f(a, p, e, x), lam)
        elif part == 'orbit':
            O = P.stable.StableOrbit
            g, w = O(-a, p, e, -x, ph, V('M'), V('mu')), O(a, p, e, x, ph, V('M'), V('mu'))
            for n in ATTR:
                same(j, n, getattr(g, n), getattr(w, n))
            evald(j, 'orbit.trajectory', g.trajectory(), w.trajectory(), lam)
            evald(j, 'orbit.trajectory_deltas', g.trajectory_deltas(), w.trajectory_deltas(), lam)
            evald(j, 'orbit.four_velocity', g.four_velocity(), w.four_velocity(), lam)
            same(j, 'initial_position', g.initial_position, w.initial_position)
            same(j, 'initial_velocity', g.initial_velocity, w.initial_velocity)
            same(j, 'orbit.mino_frequencies', g.mino_frequencies(), w.mino_frequencies())
            same(j, 'orbit.fundamental_frequencies', g.fundamental_frequencies(), w.fundamental_frequencies())
            same(j, 'orbit.constants_of_motion', g.constants_of_motion(), w.constants_of_motion())
    j.check_sides = False
    j.explore(fn, m.facts, [dict(s, E0=Fraction(9, 10), L0=Fraction(3), Q0=Fraction(2), M=Fraction(10), mu=Fraction(1)) for s in smp], NAMES,
              defs=m.defs, scope=j.name, timeout=0.4, merge=True)


def jobs(tier, seed):
    sl = slices(spins=('kerr',))
    out = []
    for s in sl + ['kerr marg pro', 'kerr marg retro', 'kerr marg eqpro', 'kerr marg eqretro', 'kerr ecc polar', 'kerr circ polar', 'kerr marg polar']:
        out.append((s + ': constants', job))
    for part in ('frequencies', 'trajectory', 'orbit'):
        out += [(s + ': ' + part, job) for s in sl]
    return out


META = {
    'budget': {'quick': 120, 'thorough': 300},
    'bounds': 'all 0 < a < 1, all p above the separatrix, 0 <= e <= 1 and all inclinations; trajectories at every Mino time and initial phase',
    'outside': 'the value of the separatrix (C04), rounding',
    'stubs': ['separatrix: an unknown number between 1 and p for each (a, e, x)'],
}
