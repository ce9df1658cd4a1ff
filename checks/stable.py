"""Symbolic stable orbits: slices of the parameter space, samples, cuts of the constants and roots"""
from .common import *
from symk import numeric as N
from symk import norm

# slice name -> (spin, eccentricity, inclination)
SPIN = ('kerr', 'schw')
ECC = ('ecc', 'circ')
INC = ('pro', 'retro', 'eqpro', 'eqretro')


def slices(spins=SPIN, eccs=ECC, incs=INC):
    return ['%s %s %s' % (s, e, i) for s in spins for e in eccs for i in incs]


class Stable:
    """one slice; provides symbols, facts and samples"""

    def __init__(self, name, seed=1, nsamples=8, margin=None):
        self.name = name
        spin, ecc, inc = name.split(':')[0].split()[:3]
        self.spin, self.ecc, self.inc = spin, ecc, inc
        self.a = V('a') if spin == 'kerr' else K(0)
        self.e = V('e') if ecc == 'ecc' else K(0) if ecc == 'circ' else K(1)
        self.x = {'pro': V('x'), 'retro': V('x'), 'eqpro': K(1), 'eqretro': K(-1), 'polar': K(0)}[inc]
        self.p = V('p')
        f = []
        if spin == 'kerr':
            f += [lt(0, self.a), lt(self.a, 1)]
        if ecc == 'ecc':
            f += [lt(0, self.e), lt(self.e, 1)]
        if inc == 'pro':
            f += [lt(0, self.x), lt(self.x, 1)]
        if inc == 'retro':
            f += [lt(self.x, 0), lt(-1, self.x)]
        self.domain = f
        rnd = random.Random('%s %s' % (name, seed))
        self.rnd = rnd
        self.samples = []
        while len(self.samples) < nsamples:
            k = len(self.samples)
            s = {'a': q(rnd, 0, 1) if spin == 'kerr' else Fraction(0),
                 'e': q(rnd, 0, 1) if ecc == 'ecc' else Fraction(0 if ecc == 'circ' else 1),
                 'x': {'pro': q(rnd, 0, 1), 'retro': -q(rnd, 0, 1), 'eqpro': Fraction(1), 'eqretro': Fraction(-1), 'polar': Fraction(0)}[inc]}
            if spin == 'kerr' and k == 0:
                s['a'] = Fraction(9, 10)
            ps = kerr.separatrix(s['a'], s['e'], s['x'])
            s['p'] = Fraction(round(ps * 1000 + 1 + 1000 * [0.05, 0.5, 3, 8, 1, 20, 0.2, 2][k % 8]), 1000)
            self.samples.append(s)
        self.names = ('a', 'p', 'e', 'x')

    def stub_separatrix(self, P, ex=None):
        """the separatrix becomes an unknown below p (C04 decides what it is)"""
        memo = {}

        def separatrix(a, e, x):
            k = (lift(a), lift(e), lift(x))
            if k not in memo:
                memo[k] = V('psep%d' % len(memo) if memo else 'psep')
            name = memo[k].n.args
            ex = S.EXPLORER[0]
            if name != 'psep' and ex is not None and name not in ex.vardefs:
                ex._def(name, lambda env, k=k: N.mp.mpf(kerr.separatrix(*[float(N.evalf(v, env)) for v in k])))
            return memo[k]
        P.constants.separatrix = separatrix
        for m in ('spacetime', 'frequencies', 'stable'):
            mod = getattr(P, m)
            if hasattr(mod, 'separatrix'):
                mod.separatrix = separatrix
        self.facts = self.domain + [lt(V('psep'), self.p), lt(1, V('psep'))]
        self.defs = {'psep': lambda env: N.mp.mpf(kerr.separatrix(float(env.get('a', 0)), float(env.get('e', 0)), float(env.get('x', 0))))}


def lemma(j, name, c, why=None):
    """use a property that another check decides: points where it fails are reported as candidates, the rest is assumed"""
    c = getattr(c, 'c', c)
    if c is True or c is False:
        c = X.TRUE if c else X.FALSE
    ex = j.ex
    if c.op == 'const' and c.args[0]:
        return
    for env, memo in zip(ex._live, ex._memos):
        try:
            ok = N.holds(c, env, memo)
        except N.Undefined:
            ok = False
        if not ok:
            j._cand(env, 'assumed fact fails: %s' % name)
    j.lemmas.add(name)
    ex.assume(c)


def lemma_zero(j, name, n, tol=1e-12):
    """as lemma, for an identity that is not added to the path condition"""
    n = lift(n)
    ex = j.ex
    j.lemmas.add(name)
    keep = []
    for env, memo in zip(ex._live, ex._memos):
        try:
            ok = abs(N.evalf(n, env, memo)) <= tol * j._mag(n, env, memo)
        except N.Undefined:
            ok = False
        if not ok:
            j._cand(env, 'assumed identity fails: %s' % name)
        keep.append(ok)
    ex._live[:] = [e for e, k in zip(ex._live, keep) if k]
    ex._memos[:] = [m for m, k in zip(ex._memos, keep) if k]


def cut(j, name, s, positive=None):
    """replace an expression by a variable of the given name from now on"""
    n = lift(s)
    if n.kind in ('v', 'c'):
        return Sym(n)
    ex = j.ex
    v = X.var(name)
    k, core = X._split(n) if n.kind != 'a' else (1, n)
    if n.kind == 'a' and n.args[0] == 0 and len(n.args[1]) == 1:
        k, core = n.args[1][0][1], n.args[1][0][0]
    node = n
    ex._def(name, lambda env, node=node: N.evalf(node, env))
    X.CUT[core] = X.scale(Fraction(1) / k, v)
    return Sym(v)


def constants(j, m, cutQ=False):
    """run constants_of_motion and replace E and L by variables"""
    C = j.P.constants
    if m.ecc == 'ecc':
        cut(j, 'r1', m.p / (1 - m.e))
        cut(j, 'r2', m.p / (1 + m.e))
    for _ in range(4):
        E, L, Q = C.constants_of_motion(m.a, m.p, m.e, m.x)
        E2 = cut(j, 'E', E)
        if E2.n is not lift(E):
            continue
        L2 = cut(j, 'L', L)
        if L2.n is not lift(L):
            continue
        if cutQ:
            Q2 = cut(j, 'Q', Q)
            if Q2.n is not lift(Q):
                continue
        break
    E, L, Q = [Sym(lift(v)) for v in (E, L, Q)]
    return E, L, Q


def facts_constants(j, m, E, L, Q):
    lemma(j, '0 < E < 1', X.cand(lt(0, E), lt(E, 1)))
    lemma(j, 'sign of L', lt(0, L) if m.inc in ('pro', 'eqpro') else lt(L, 0))
    x2 = m.x * m.x
    lemma_zero(j, 'Q relation', Q * x2 - (1 - x2) * (x2 * m.a ** 2 * (1 - E * E) + L * L))


def roots(j, m, consts):
    """stable radial roots as variables r1 >= r2 > r3 > r4 >= 0"""
    C = j.P.constants
    E, L, Q = consts
    for _ in range(4):
        rr = [Sym(lift(v)) for v in C.stable_radial_roots(m.a, m.p, m.e, m.x, consts)]
        if len(rr) != 4:
            j.fail('four radial roots')
            raise S.Unsupported('roots')
        r3 = cut(j, 'r3', rr[2])
        if r3.n is not rr[2].n:
            continue
        r4 = cut(j, 'r4', rr[3])
        if r4.n is not rr[3].n:
            continue
        break
    w = cut(j, 'w', sqrt(1 - m.a ** 2)) if m.spin == 'kerr' else K(1)
    if m.spin == 'kerr':
        lemma(j, '0 < w < 1', X.cand(lt(0, w), lt(w, 1)))
    f = [('r1 >= r2', lt(rr[1], rr[0]) if m.ecc == 'ecc' else le(rr[1], rr[0])), ('r2 > r3', lt(rr[2], rr[1])), ('r3 > 1 + w', lt(1 + w, rr[2]))]
    if m.spin == 'kerr':
        f.append(('r4 < 1 - w', lt(rr[3], 1 - w)))
        f.append(('0 <= r4', le(0, rr[3])) if m.inc.startswith('eq') else ('0 < r4', lt(0, rr[3])))
    for n, c in f:
        lemma(j, n, c)
    # the radial polynomial is (1-E^2)(r1-r)(r-r2)(r-r3)(r-r4)
    t = X.var('r?')
    return rr, w


def vieta(j, m, consts, rr):
    """numerical confirmation at the sample points that the roots belong to the radial potential"""
    E, L, Q = consts
    r1, r2, r3, r4 = rr
    a = m.a
    k = 1 - E * E
    lemma_zero(j, 'roots: sum', 2 - k * (r1 + r2 + r3 + r4))
    lemma_zero(j, 'roots: pairs', (a * a * (E * E - 1) - L * L - Q) + k * (r1 * r2 + r1 * r3 + r1 * r4 + r2 * r3 + r2 * r4 + r3 * r4))
    lemma_zero(j, 'roots: triples', 2 * ((a * E - L) ** 2 + Q) - k * (r1 * r2 * r3 + r1 * r2 * r4 + r1 * r3 * r4 + r2 * r3 * r4))
    lemma_zero(j, 'roots: product', -a * a * Q + k * r1 * r2 * r3 * r4)


def relations(j, m, consts, w):
    """normal forms use w^2 = 1-a^2, and without spin L = x p / sqrt(p-3-e^2) (C01 decides it)"""
    L = consts[1]
    if m.spin == 'schw':
        lemma_zero(j, 'L without spin', L - m.x * m.p / sqrt(m.p - 3 - m.e ** 2))

    def init(f):
        if m.spin == 'kerr':
            if w.n.kind == 'v':
                f.sqr[f._nodegen(m.a.n)] = ('poly', f.el(lift(1 - w * w)).num)
        elif lift(L).kind == 'v':
            f.memo[lift(L)] = f.el(lift(m.x * m.p / sqrt(m.p - 3 - m.e ** 2)))
    j.ex.field_init = init
    j.ex._field = None
    return init
