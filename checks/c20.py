"""C20: unit conversions"""
import random
from fractions import Fraction
from symk import expr as X
from symk.sym import Sym

C, G, SUN = Fraction(299792458), Fraction('6.6743e-11'), Fraction('1.98847e30')
LEN, TIME = G * SUN / C ** 2, G * SUN / C ** 3
EN, ANG = SUN * C ** 2, G * SUN ** 2 / C
# name -> (reference factor, power of the mass)
TABLE = {
    'distance_in_meters': (LEN, 1), 'distance_in_cm': (LEN * 100, 1), 'distance_in_km': (LEN / 1000, 1),
    'distance_in_lightyears': (LEN / Fraction('9.4607304725808e15'), 1), 'distance_in_au': (LEN / Fraction('1.495978707e11'), 1),
    'time_in_seconds': (TIME, 1), 'time2_in_seconds2': (TIME ** 2, 2), 'time_in_days': (TIME / 86400, 1),
    'energy_in_joules': (EN, 1), 'energy_in_ergs': (EN * 10 ** 7, 1),
    'angular_momentum_in_mks': (ANG, 2), 'angular_momentum_in_cgs': (ANG * 10 ** 7, 2),
    'carter_constant_in_mks': (ANG ** 2, 4), 'carter_constant_in_cgs': (ANG ** 2 * 10 ** 14, 4),
    'frequency_in_Hz': (1 / TIME, -1), 'frequency_in_mHz': (1000 / TIME, -1),
}
RATIO = [('distance_in_cm', 'distance_in_meters', Fraction(100)), ('distance_in_km', 'distance_in_meters', Fraction(1, 1000)),
         ('time_in_days', 'time_in_seconds', Fraction(1, 86400)), ('energy_in_ergs', 'energy_in_joules', Fraction(10 ** 7)),
         ('angular_momentum_in_cgs', 'angular_momentum_in_mks', Fraction(10 ** 7)),
         ('carter_constant_in_cgs', 'carter_constant_in_mks', Fraction(10 ** 14)), ('frequency_in_mHz', 'frequency_in_Hz', Fraction(1000))]


def samples(seed, n=8):
    r = random.Random(seed)
    return [{'v': Fraction(r.randint(1, 4000), 97) * r.choice([1, -1]), 'M': Fraction(r.randint(1, 9 * 10 ** 6), 31)} for _ in range(n)]


def job(j):
    v, M = Sym(X.var('v')), Sym(X.var('M'))
    facts = [X.lt(X.const(0), M.n)]
    eps, tiny = Fraction(1, 1000), Fraction(1, 10 ** 12)
    neg = j.name == 'negative'
    facts.append(X.lt(v.n, X.const(0)) if neg else X.lt(X.const(0), v.n))
    smp = [dict(s, v=-abs(s['v']) if neg else abs(s['v'])) for s in samples(j.seed)]

    def near(name, got, want, tol):
        """got within tol*|want| of want; want has the sign of v"""
        d, w = (got - want), (-want if neg else want)
        j.true(name + ' upper', X.le(d.n, (w * tol).n), timeout=5)
        j.true(name + ' lower', X.le((-d).n, (w * tol).n), timeout=5)

    for name, (k, n) in TABLE.items():
        def fn():
            f = getattr(j.P.units, name)
            near(name + ' value', f(v, M), v * k * M ** n, eps)
            near(name + ' proportional', f(v, M), v * M ** n * f(Sym(X.const(1)), Sym(X.const(1))), tiny)
        j.explore(fn, facts, smp, ('v', 'M'), scope=name)
    for hi, lo, k in RATIO:
        def fn():
            near('%s / %s' % (hi, lo), getattr(j.P.units, hi)(v, M), getattr(j.P.units, lo)(v, M) * k, tiny)
        j.explore(fn, facts, smp, ('v', 'M'), scope='ratio:%s:%s' % (hi, lo))

    def fn():
        near('mass', j.P.units.mass_in_kg(M) * v, v * SUN * M, eps)
    j.explore(fn, facts, smp, ('v', 'M'), scope='mass_in_kg')


def jobs(tier, seed):
    return [('positive', job), ('negative', job)]


META = {
    'budget': {'quick': 60, 'thorough': 200},
    'bounds': 'all real values (both signs) and all masses M > 0; no bound on either',
    'outside': 'rounding of floating-point arithmetic (constants enter as the exact rational value of the floats in the source)',
    'assumptions': ['reference values: c = 299792458, G = 6.6743e-11 (CODATA 2018), solar mass 1.98847e30 kg, all within the 1e-3 band of the property'],
}
