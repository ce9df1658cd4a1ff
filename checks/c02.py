"""C02: parameters are accepted exactly on the documented domain"""
from .common import *
from symk import numeric as N

# name -> (call on the package, also rejects x = 0 and e = 1)
CALLS = {
    'energy': (lambda P, *s: P.constants.energy(*s), False),
    'angular_momentum': (lambda P, *s: P.constants.angular_momentum(*s), False),
    'carter_constant': (lambda P, *s: P.constants.carter_constant(*s), False),
    'constants_of_motion': (lambda P, *s: P.constants.constants_of_motion(*s), False),
    'separatrix': (lambda P, a, p, e, x: P.constants.separatrix(a, e, x), False),
    'r_frequency': (lambda P, *s: P.frequencies.r_frequency(*s), True),
    'theta_frequency': (lambda P, *s: P.frequencies.theta_frequency(*s), True),
    'phi_frequency': (lambda P, *s: P.frequencies.phi_frequency(*s), True),
    'gamma': (lambda P, *s: P.frequencies.gamma(*s), True),
    'mino_frequencies': (lambda P, *s: P.frequencies.mino_frequencies(*s), True),
    'fundamental_frequencies': (lambda P, *s: P.frequencies.fundamental_frequencies(*s), True),
    'stable_trajectory': (lambda P, *s: P.stable.stable_trajectory(*s), True),
    'StableOrbit': (lambda P, *s: P.stable.StableOrbit(*s), True),
}
GIVEN = {
    'energy': (), 'angular_momentum given E': ('E',), 'carter_constant given E, L': ('E', 'L'),
    'r_frequency given constants': 1, 'theta_frequency given constants': 1,
    'phi_frequency given constants': 3, 'gamma given constants': 3,
}
NAMES = ('a', 'p', 'e', 'x')


def call(P, name, s):
    if name.endswith(' given E'):
        return P.constants.angular_momentum(*s, V('E0'))
    if name.endswith(' given E, L'):
        return P.constants.carter_constant(*s, V('E0'), V('L0'))
    if name.endswith(' given constants'):
        f = getattr(P.frequencies, name.split()[0])
        k = ((V('E0'), V('L0'), V('Q0')), V('U0'), V('W0'))
        return f(*s, *k[:1 if name[0] in 'rt' else 3])
    return CALLS[name][0](P, *s)


def strict(name):
    return CALLS[name.split(' given')[0]][1]


def samples(seed, n=90):
    rnd = random.Random(seed)
    F = Fraction
    out = []
    spin = [F(0), F(1, 2), F(9, 10), F(-1, 2), F(-9, 10), F(1), F(-1), F(6, 5), F(-13, 10)]
    ecc = [F(0), F(3, 10), F(1), F(7, 10), F(-1, 10), F(11, 10)]
    inc = [F(0), F(1, 2), F(-1, 2), F(1), F(-1), F(6, 5), F(-6, 5)]
    good = [spin[:5], ecc[:4], inc[:5]]
    for k in range(n):
        c = [rnd.choice(v) for v in good]
        if k % 3 == 0:
            j = rnd.randrange(3)
            c[j] = rnd.choice([spin[5:], ecc[4:], inc[5:]][j])
        a, e, x = c
        ok = abs(a) < 1 and 0 <= e <= 1 and abs(x) <= 1
        ps = kerr.separatrix(abs(a), e, -x if a < 0 else x) if ok else 8
        p = F(round(ps * 1000), 1000) * rnd.choice([F(5, 4), F(11, 10), F(9, 10), F(101, 100), F(1, 2), F(3)])
        out.append({'a': a, 'p': p, 'e': e, 'x': x, 'E0': F(9, 10), 'L0': F(3), 'Q0': F(1), 'U0': F(2), 'W0': F(3)})
    for a in spin[:5]:
        for x in (F(1), F(-1)):
            out.append({'a': a, 'p': F(20), 'e': F(1, 5), 'x': x, 'E0': F(9, 10), 'L0': F(3), 'Q0': F(1), 'U0': F(2), 'W0': F(3)})
    return out


def stub(j):
    """separatrix of the callers: the domain test of the specification, then an unknown value"""
    P = j.P
    memo = {}

    def separatrix(a, e, x):
        if not (0 <= a) or not (a < 1) or not (0 <= e) or not (e <= 1) or not (-1 <= x) or not (x <= 1):
            raise ValueError('separatrix: outside the domain')
        a, e, x = Sym(lift(a)), Sym(lift(e)), Sym(lift(x))
        if a == 0:
            return 6 + 2 * e
        k = (a.n, e.n, x.n)
        if k not in memo:
            memo[k] = V('psep%d' % len(memo))
        v = memo[k]

        def num(env):
            av, ev, xv = (N.evalf(q_, env) for q_ in k)
            return N.mp.mpf(kerr.separatrix(float(av), float(ev), float(xv)))
        j.ex._def(v.n.args, num) if isinstance(v.n.args, str) else j.ex._def(v.n.args[0], num)
        j.ex.assume(lt(1, v))
        return v
    orig = P.constants.separatrix
    patch(P, orig, separatrix)
    return separatrix


def job(j):
    P = j.P
    name = j.name.split(' at a=0')[0]
    v = {k: V(k) for k in NAMES}
    smp = samples(j.seed)
    if 'at a=0' in j.name:
        v['a'] = K(0)
        smp = [dict(s, a=Fraction(0)) for s in smp] + [dict(smp[0], a=Fraction(0), e=e, p=6 + 2 * e, x=x)
                                                     for e in (Fraction(0), Fraction(1, 2)) for x in (Fraction(1), Fraction(-1), Fraction(1, 2))]
    fs = []
    if name == 'separatrix':
        fs = [le(0, v['a'])]
        roots = {}

        class R:
            def __init__(self, r):
                self.root, self.converged = r, True

        def root_scalar(f, args=(), **kw):
            k = (getattr(f, '__name__', ''), len(args), len(roots))
            roots[k] = V('root%d' % len(roots))
            return R(roots[k])
        patch(P, P.constants.root_scalar, root_scalar)
        sep = None
    else:
        sep = stub(j)
        if name == 'StableOrbit':
            for m in ('trajectory', 'four_velocity'):
                setattr(P.stable.StableOrbit, m, lambda self, *a, **k: tuple((lambda lam, q=q: V('u_' + q)) for q in 'trhp'))
        if name == 'stable_trajectory' or name == 'StableOrbit':
            pass

    def fn():
        s = tuple(v[k] for k in NAMES)
        a, p, e, x = s
        neg = S.decide(lt(a, 0))
        try:
            call(P, name, s)
            out = True
        except ValueError:
            out = False
        bad = [le(1, a), le(a, -1), lt(e, 0), lt(1, e), lt(1, x), lt(x, -1)]
        if strict(name):
            bad += [eq(x, 0), eq(e, 1)]
        if sep is not None:
            # the separatrix of the same orbit
            if not S.decide(X.cor(*bad)):
                bad.append(le(p, sep(-a if neg else a, e, -x if neg else x)))
        bad = X.cor(*bad)
        if out:
            j.true('accepted parameters are inside the domain', X.cnot(bad))
        else:
            j.true('rejected parameters are outside the domain', bad)
    j.check_sides = False
    j.explore(fn, fs, smp, NAMES, scope=j.name, max_paths=600, timeout=0.4)


def jobs(tier, seed):
    ns = list(CALLS) + [k for k in GIVEN if ' ' in k]
    return [(n, job) for n in ns] + [(n + ' at a=0', job) for n in ns if n != 'separatrix']


META = {
    'budget': {'quick': 120, 'thorough': 300},
    'bounds': 'all real a, p, e, x (spin non-negative for the separatrix function itself)',
    'outside': 'the value of the separatrix (C04); non-real and non-finite parameters',
    'stubs': ['separatrix of the callers: raises outside its domain, otherwise an unknown number above 1'],
}
