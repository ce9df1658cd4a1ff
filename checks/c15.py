"""C15: initial conditions are classified as stable or plunging"""
from .common import *
from .plunge import solve, nearly_double
from symk import numeric as N
from symk.sym import SymComplex

KINDS = ('real', 'complex below', 'complex between', 'complex above', 'none')
NAMES = ('a', 'E', 'L', 'Q', 'r', 'tol')
TOL = Fraction(1, 10 ** 4)


def kind_of(d):
    re, im = solve(d['a'], d['E'], d['L'], d['Q'])
    if len(re) + len(im) != 4:
        return None
    if len(im) == 0:
        return 'real' if min(y - x for x, y in zip(re, re[1:])) > 1e-3 else None
    if len(im) == 4:
        return 'none'
    x = N.mp.re(im[0])
    if abs(im[0].imag) < 5e-5:
        return None
    return 'complex below' if x < re[0] else 'complex between' if x < re[1] else 'complex above'


def samples(kind, zero, seed, n=9):
    """constants of bound motion with the given roots, starting radii inside, outside and close to the turning points"""
    rnd = random.Random('%s %s %s' % (kind, zero, seed))
    out = []
    F = Fraction
    outer = got = 0
    for t in range(8000):
        if got >= n and (kind != 'real' or zero or outer >= n // 2):
            break
        wild = kind in ('complex below', 'none') and t % 2
        fast = kind == 'real' and not zero and t % 4 < 2
        a = F(0) if zero else q(rnd, F(9, 10), 1) if fast or t % 3 == 0 else q(rnd, 0, 1)
        near = None
        if kind.startswith('complex') and not zero and got >= n - 3:
            near = nearly_double(rnd, lambda a, L, Q, E: kind_of({'a': a, 'E': E, 'L': L, 'Q': Q}) == kind, 60)
        d = near or {'a': a, 'E': q(rnd, F(1, 10), 1) if wild or t % 2 else q(rnd, F(9, 10), 1), 'L': q(rnd, 0, 2) if fast or t % 3 == 0 else q(rnd, -5, 5),
             'Q': F(0) if t % 5 == 0 else q(rnd, -3 if kind == 'none' else 0, 12) if t % 2 and not fast else q(rnd, 0, F(1, 5))}
        if kind_of(d) != kind:
            continue
        re, im = solve(d['a'], d['E'], d['L'], d['Q'])
        if kind == 'real':
            o = not zero and re[2] < 1
            if (outer if o else got - outer) >= (n + 1) // 2 and not zero:
                continue
            outer += o
        got += 1
        fr = [F(round(float(v) * 10 ** 9), 10 ** 9) for v in re] + ([F(round(float(im[0].real) * 10 ** 9), 10 ** 9)] if im else [])
        c = sorted(fr)
        # around the turning points, on both sides of the default and of the given tolerance
        for x in fr:
            for s in (-2, -1, 1, 2):
                for tol, d0 in ((rnd.choice([F(1, 100), F(1, 10 ** 6)]), TOL), (rnd.choice([F(1, 100), F(1, 10 ** 6)]),) * 2):
                    out.append(dict(d, r=x + s * d0 * F(9, 10) / (1 if abs(s) == 2 else 2) * (F(3, 2) if abs(s) == 2 else 1), tol=tol))
        for k in range(len(c)):
            out.append(dict(d, r=c[k] + (c[k + 1] - c[k] if k + 1 < len(c) else F(10)) * q(rnd, 0, 1), tol=TOL))
    out = [d for d in out if d['r'] > 0]
    rnd.shuffle(out)
    return out


def job(j):
    kind, zero = j.name.split(' at ')[0], 'a=0' in j.name
    IC = j.P.initial_conditions
    a = K(0) if zero else V('a')
    E, L, Q, r0, tol = (V(k) for k in NAMES[1:])
    w = K(1) if zero else V('w')
    defs = {'w': lambda env: N.mp.sqrt(1 - N.evalf(a.n, env) ** 2)}

    def get(f):
        def g(env):
            v = [env.get(k, Fraction(0)) for k in 'aELQ']
            re, im = solve(*v)
            try:
                return f(re, im)
            except IndexError:
                return None
        return g
    fs = [lt(0, tol), lt(0, r0), lt(0, E), lt(E, 1)] + ([] if zero else [lt(0, a), lt(a, 1), lt(0, w), lt(w, 1), eq(w * w, 1 - a ** 2)])
    rm, rp = 1 - w, 1 + w
    if kind == 'real':
        s = [V('s%d' % k) for k in range(4)]
        for k in range(4):
            defs['s%d' % k] = get(lambda re, im, k=k: re[k] if len(re) == 4 else None)
        fs += [le(x, y) for x, y in zip(s, s[1:])]
        # the potential is positive between the horizons
        fs += [X.cor(le(x, rm), le(rp, x)) for x in s]
        roots = list(s)
    elif kind != 'none':
        b, c, re, im = (V(k) for k in ('b', 'c', 're', 'im'))
        defs.update(b=get(lambda x, y: x[0]), c=get(lambda x, y: x[1]), re=get(lambda x, y: N.mp.re(y[0])), im=get(lambda x, y: abs(N.mp.im(y[0]))))
        fs += [le(b, c), lt(0, im)]
        pair = [SymComplex(re, -im), SymComplex(re, im)]
        roots = {'complex below': pair + [b, c], 'complex between': [b] + pair + [c], 'complex above': [b, c] + pair}[kind]
        fs += {'complex below': [lt(re, b)], 'complex between': [le(b, re), lt(re, c)], 'complex above': [le(c, re)]}[kind]
    else:
        v = [V(k) for k in ('re', 'im', 're2', 'im2')]
        defs.update(re=get(lambda x, y: min(N.mp.re(z) for z in y)), re2=get(lambda x, y: max(N.mp.re(z) for z in y)),
                    im=get(lambda x, y: abs(N.mp.im(min(y, key=N.mp.re)))), im2=get(lambda x, y: abs(N.mp.im(max(y, key=N.mp.re)))))
        fs += [lt(0, v[1]), lt(0, v[3]), le(v[0], v[2])]
        roots = [SymComplex(v[0], -v[1]), SymComplex(v[0], v[1]), SymComplex(v[2], -v[3]), SymComplex(v[2], v[3])]
    t = X.var('t?')
    R = [-a ** 2 * Q, 2 * ((a * E - L) ** 2 + Q), a ** 2 * (E ** 2 - 1) - L ** 2 - Q, K(2), E ** 2 - 1]
    k = (E, L, Q)
    pos, vel = (V('t'), r0, V('theta'), V('phi')), tuple(V('v%d' % i) for i in range(4))
    asked = []

    def constants(*s, **kw):
        s = list(s) + [kw[n] for n in ('a', 'initial_position', 'initial_velocity')[len(s):]]
        asked.append(lift(s[0]) is lift(a) and s[1] is pos and s[2] is vel)
        return k
    patch(j.P, IC.constants_from_initial_conditions, constants)

    def within(lo, hi, d=0):
        return X.cand(le(lo - d, r0), le(r0, hi + d))

    def outcome(d, f):
        try:
            out = bool(f())
        except ValueError:
            out = None
        if kind == 'real':
            top, low = within(s[2], s[3], d), within(s[0], s[1], d)
            if out is True:
                j.true('stable orbits lie between two turning points outside the horizons', X.cand(top, le(rp, s[2])))
            elif out is False:
                j.true('plunges reach inside the inner horizon', X.cor(X.cand(top, le(s[2], rm)), X.cand(low, lt(rm, s[2]))))
            else:
                # motion between two turning points inside the inner horizon is neither
                j.true('only forbidden regions are refused', X.cnot(X.cor(X.cand(top, ne(s[2], rm)), X.cand(low, le(rp, s[2])))))
        elif kind == 'none':
            j.true('no turning points: refused', out is None)
        elif out is True:
            j.true('two real turning points: a plunge unless the others are a double root up to the tolerance',
                   X.cand(lt(c, re), lt(im, d), lt(re - d, r0), lt(r0, re + d)))
        else:
            j.true('two real turning points: not refused', out is False)
            j.true('a double root split by rounding is a circular orbit', X.cnot(X.cand(lt(c, re), lt(im, d), lt(re - d, r0), lt(r0, re + d))))

    def fn():
        j.ex.known_polys.append(([lift(x) for x in R], roots))
        if not zero:
            X.CUT[lift(sqrt(1 - a ** 2))] = w.n
        n = j.ex.choose(4, 'call')
        if n == 0:
            outcome(TOL, lambda: IC.is_stable(a, pos, vel))
        elif n == 1:
            outcome(tol, lambda: IC.is_stable(a, pos, vel, tol=tol))
        elif n == 2:
            outcome(TOL, lambda: IC.is_stable(a, pos, vel, constants=k))
        else:
            outcome(tol, lambda: IC.is_stable(a, pos, vel, k, tol))
        if n < 2:
            j.true('constants of these initial conditions', bool(asked) and all(asked))
    j.check_sides = False
    extra = dict({'v%d' % i: Fraction(1) for i in range(4)}, t=Fraction(0), theta=Fraction(1), phi=Fraction(0))
    j.explore(fn, fs, [dict(x, **extra) for x in samples(kind, zero, j.seed)], NAMES, scope=j.name, defs=defs)


def circular(j):
    """the root finder splits the double root of a circular orbit into two real or two complex conjugate numbers"""
    zero = 'a=0' in j.name
    IC = j.P.initial_conditions
    a = K(0) if zero else V('a')
    p, eps, r3, r4, w = V('p'), V('eps'), V('r3'), V('r4'), K(1) if zero else V('w')
    E, L, Q = V('E'), V('L'), V('Q')
    R = [-a ** 2 * Q, 2 * ((a * E - L) ** 2 + Q), a ** 2 * (E ** 2 - 1) - L ** 2 - Q, K(2), E ** 2 - 1]
    fs = [lt(0, eps), lt(eps, Fraction(1, 10 ** 4)), le(0, r4), lt(r4, r3), lt(r3, p - Fraction(1, 10 ** 3)), lt(1 + w, r3), lt(0, E), lt(E, 1)]
    fs += [eq(r4, 0)] if zero else [lt(0, a), lt(a, 1), lt(0, w), lt(w, 1), eq(w * w, 1 - a ** 2), lt(r4, 1 - w)]
    rnd = random.Random('circular %s %s' % (zero, j.seed))
    smp = []
    memo = {}
    for n in range(24):
        s = {'a': Fraction(0) if zero else q(rnd, 0, 1), 'x': rnd.choice([Fraction(1), Fraction(-1), q(rnd, 0, 1), -q(rnd, 0, 1)])}
        ps = kerr.separatrix(s['a'], 0, s['x'])
        s['p'] = Fraction(round(ps * 1000 + 50 + 1000 * rnd.choice([.1, 1, 5, 20, 50])), 1000)
        s['eps'] = q(rnd, 0, Fraction(1, 10 ** 4)) / rnd.choice([1, 10, 1000])
        smp.append(s)

    def num(i):
        def f(env):
            v = tuple(env.get(k, Fraction(0)) for k in ('a', 'p', 'x'))
            if v not in memo:
                m = [N.mp.mpf(t.numerator) / t.denominator if isinstance(t, Fraction) else t for t in v]
                k = kerr.constants(m[0], m[1], 0, m[2], sqrt=N.mp.sqrt)
                # the two other roots
                S_ = 2 / (1 - k[0] ** 2) - 2 * m[1]
                P_ = m[0] ** 2 * k[2] / ((1 - k[0] ** 2) * m[1] ** 2)
                h = S_ / 2
                d = N.mp.sqrt(h * h - P_)
                memo[v] = tuple(k) + (h + d, h - d if P_ else N.mp.mpf(0))
            return memo[v][i]
        return f
    defs = dict(zip(('E', 'L', 'Q', 'r3', 'r4'), map(num, range(5))), w=lambda env: N.mp.sqrt(1 - N.evalf(a.n, env) ** 2))
    pos, vel = (V('t'), p, V('theta'), V('phi')), tuple(V('v%d' % i) for i in range(4))
    patch(j.P, IC.constants_from_initial_conditions, lambda *s, **kw: (E, L, Q))

    def fn():
        split = [[SymComplex(p, -eps), SymComplex(p, eps)], [p - eps, p + eps], [p, p]][j.ex.choose(3, 'rounding')]
        j.ex.known_polys.append(([lift(x) for x in R], [r4, r3] + split))
        if not zero:
            X.CUT[lift(sqrt(1 - a ** 2))] = w.n
        j.true('circular orbits are stable', bool(IC.is_stable(a, pos, vel)))
    j.check_sides = False
    extra = dict({'v%d' % i: Fraction(1) for i in range(4)}, t=Fraction(0), theta=Fraction(1), phi=Fraction(0))
    j.nvalid = 8
    j.explore(fn, fs, [dict(s, **extra) for s in smp], ('a', 'p', 'x'), scope=j.name, defs=defs)


def jobs(tier, seed):
    return [(k + z, job) for k in KINDS for z in ('', ' at a=0') if k + z != 'complex between at a=0' or True] + [('circular', circular), ('circular at a=0', circular)]


META = {
    'budget': {'quick': 90, 'thorough': 300},
    'bounds': 'all 0 <= a < 1, 0 < E < 1, L, Q, starting radius r0 > 0 and tolerance; four real, two real or no real radial roots in every order; double roots split by less than 1e-4 by the root finder',
    'outside': 'a root equal to the inner horizon; motion trapped between two turning points inside the inner horizon (must not be called stable); rounding of roots that are not double',
    'stubs': ['numpy polynomial roots: unknown numbers characterised by the radial polynomial', 'constants of motion from initial conditions: unknown numbers (C14)'],
}
