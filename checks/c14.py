"""C14: constants from initial conditions"""
from .common import *
from symk import numeric as N


def unit_dt(env):
    """u^t that makes the velocity unit timelike"""
    mp = N.mp
    f = lambda k: mp.mpf(env[k].numerator) / env[k].denominator
    a, r, th = f('a'), f('r'), f('theta')
    s2, c2 = mp.sin(th) ** 2, mp.cos(th) ** 2
    S_, D = r * r + a * a * c2, r * r - 2 * r + a * a
    gtt, gtp, gpp = -1 + 2 * r / S_, -2 * a * r * s2 / S_, s2 * (r * r + a * a) + 2 * a * a * r * s2 * s2 / S_
    c = S_ / D * f('dr') ** 2 + S_ * f('dtheta') ** 2 + gpp * f('dphi') ** 2 + 1
    b = gtp * f('dphi')
    d = b * b - gtt * c
    if d < 0:
        return None
    return (-b - mp.sqrt(d)) / gtt


NAMES = ('a', 't', 'r', 'theta', 'phi', 'dt', 'dr', 'dtheta', 'dphi')


def job(j):
    rnd = random.Random(j.seed)
    v = {k: V(k) for k in NAMES}
    zero = 'Schwarzschild' in j.name
    if zero:
        v['a'] = K(0)
    a, r, th = v['a'], v['r'], v['theta']
    smp = []
    lo, hi = {'o': (2, 30), 'b': (Fraction(1, 2), Fraction(3, 2)), 'i': (0, Fraction(1, 3))}[j.name[0]]
    n = 0
    while len(smp) < 16 and n < 2000:
        n += 1
        s = {'a': Fraction(0) if zero else q(rnd, 0, 1) if lo == 2 else q(rnd, Fraction(9, 10), 1), 'r': q(rnd, lo, hi), 'theta': q(rnd, 0, 3), 't': q(rnd, -9, 9), 'phi': q(rnd, -9, 9),
             'dr': q(rnd, -1, 1), 'dtheta': rnd.choice([Fraction(0), q(rnd, -1, 1)]) / 4, 'dphi': q(rnd, -1, 1) / 4, 'dt': unit_dt}
        if unit_dt(s) is not None:
            smp.append(s)
    fs = [lt(0, r), ne(delta(r, a), 0), ne(sin(th), 0)]
    fs += [] if zero else [lt(0, a), lt(a, 1)]
    w = sqrt(1 - a * a)
    if j.name[0] == 'o':
        fs.append(lt(2, r))

    def fn():
        pos = tuple(v[k] for k in NAMES[1:5])
        vel = tuple(v[k] for k in NAMES[5:])
        E, L, Q = j.P.initial_conditions.constants_from_initial_conditions(a, pos, vel)
        s2, c2 = sin(th) ** 2, cos(th) ** 2
        S_ = r * r + a * a * c2
        gtt, gtp, gpp = -1 + 2 * r / S_, -2 * a * r * s2 / S_, s2 * (r * r + a * a) + 2 * a * a * r * s2 * s2 / S_
        E0 = -(gtt * v['dt'] + gtp * v['dphi'])
        L0 = gtp * v['dt'] + gpp * v['dphi']
        j.zero('energy', E - E0)
        j.zero('angular momentum', L - L0)
        j.zero('Carter constant', Q - ((S_ * v['dtheta']) ** 2 + c2 * (a * a * (1 - E * E) + L * L / s2)))
    j.explore(fn, fs, smp, NAMES, scope=j.name)


def jobs(tier, seed):
    return [(k, job) for k in ('outside', 'between the horizons', 'inside', 'outside Schwarzschild')]


META = {
    'budget': {'quick': 90, 'thorough': 200},
    'bounds': 'all 0 <= a < 1, r > 0 off the horizons, theta off the axis and all velocities (the unit timelike ones in particular)',
    'outside': 'rounding',
}
