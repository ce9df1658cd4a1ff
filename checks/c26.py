"""C26: results do not depend on earlier calls"""
from .stable import *
from .plunge import Plunge
from .motion import *
from .c24 import oa
from symk import load
import numpy as np
import ops26

SHARED = ('M', 'mu') + tuple('%s%d' % (c, k) for c in 'xv' for k in range(4)) + ('lam', 'lamb')


class Sub:
    """a subject: the symbols of one orbit, its slice of the parameter space and its arguments"""

    def __init__(self, name, seed, suf):
        self.name, self.suf = name, suf
        self.plunge = name.split()[0] in ('complex', 'outer', 'inner')
        if self.plunge:
            m = self.m = Plunge(name, seed, 5, suf)
            self.keys = 'aELQ'
            self.args = (m.a, m.E, m.L, m.Q)
            self.facts = m.facts + [ne(m.L, 0)]
            self.defs = m.defs
            self.samples = [{k: s[k + suf] for k in self.keys} for s in m.samples]
        else:
            m = self.m = Stable(name, seed, 5)
            self.keys = 'apex'
            ren = {X.var(k): X.var(k + suf) for k in self.keys}
            self.args = tuple(Sym(X.substitute([lift(v)], ren)[0]) for v in (m.a, m.p, m.e, m.x))
            ps = V('psep' + suf)
            self.facts = [self._ren(c, ren) for c in m.domain] + [lt(ps, self.args[1]), lt(1, ps)]
            self.psep = ps
            self.defs = {'psep' + suf: lambda env: N.mp.mpf(kerr.separatrix(*[float(N.evalf(lift(self.args[k]), env)) for k in (0, 2, 3)]))}
            self.samples = [{k: s[k] for k in self.keys} for s in m.samples]

    @staticmethod
    def _ren(c, ren):
        if c.op in ('not', 'and', 'or'):
            return {'not': X.cnot, 'and': X.cand, 'or': X.cor}[c.op](*[Sub._ren(x, ren) for x in c.args])
        return X.cmp(c.op, X.substitute([c.args[0]], ren)[0])

    def subject(self, k):
        """the arguments of the operations: containers that must come back unchanged"""
        s = self.suf
        d = {'args': self.args, 'k': k, 'M': V('M' + s), 'mu': V('mu' + s), 'ph': list(phases(s)), 'ph2': list(phases('2' + s)), 'lam': V('lam' + s),
             'arr': oa([V('lam' + s), V('lamb' + s)]), 'pos': [V('x%d' % i + s) for i in range(4)], 'vel': [V('v%d' % i + s) for i in range(4)], 'a': self.args[0]}
        return d

    def register(self, j, new):
        if self.plunge:
            self.m.register(j)
            S.decide(X.lt(self.m.L.n, X.const(0)))
            return (self.m.E, self.m.L, self.m.Q)
        for _ in range(4):
            E, L, Q = new().constants.constants_of_motion(*self.args)
            E2 = cut(j, 'E' + self.suf, E)
            if E2.n is not lift(E):
                continue
            L2 = cut(j, 'L' + self.suf, L)
            if L2.n is lift(L):
                break
        for c in (lt(0, E), lt(E, 1), lt(0, L) if self.m.inc in ('pro', 'eqpro') else lt(L, 0)):
            lemma(j, 'constants', c)
        return tuple(Sym(lift(v)) for v in (E, L, Q))


def package(subs, orbits):
    """a freshly loaded package with the stubs"""
    P = load.fresh()
    for n in ('constants', 'frequencies', 'stable', 'plunge', 'spacetime', 'initial_conditions', 'orbit', 'units'):
        P.load('kerrgeopy.' + n)

    def separatrix(a, e, x):
        for s in subs:
            if not s.plunge and all(lift(u) is lift(v) for u, v in zip((a, e, x), (s.args[0], s.args[2], s.args[3]))):
                return s.psep
        for s in subs:
            if not s.plunge and all(bool(u == v) for u, v in zip((a, e, x), (s.args[0], s.args[2], s.args[3]))):
                return s.psep
        raise S.Unsupported('separatrix of other parameters')
    patch(P, P.constants.separatrix, separatrix)
    if orbits:
        IC = P.initial_conditions

        def who(pos):
            return next(o for o in orbits if lift(pos[1]) is lift(o['pos'][1]))
        patch(P, IC.is_stable, lambda a, pos, vel, *r, **k: who(pos)['stable'])
        patch(P, IC.constants_from_initial_conditions, lambda a, pos, vel, *r, **k: who(pos)['k'])
        for n in ('stable_orbit_initial_phases', 'plunging_orbit_initial_phases'):
            patch(P, getattr(IC, n), lambda a, pos, vel, *r, **k: tuple(who(pos)['ph']))
        patch(P, P.constants.apex_from_constants, lambda a, E, L, Q: next(o['args'] for o in orbits if lift(o['k'][0]) is lift(E)))
        P.spacetime.KerrSpacetime.norm = lambda *s: K(-1)
    return P


def leaves(v):
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim:
        for x in v:
            yield from leaves(x)
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            yield from leaves(v[k])
    else:
        yield v


def freeze(v):
    """what an argument holds"""
    return [lift(x) if lift(x) is not None else x for x in leaves(v)]


def public(o):
    """the attributes of an orbit that hold results"""
    if o is None:
        return {}
    return {k: v for k, v in vars(o).items() if not k.startswith('_') and all(x is None or isinstance(x, (bool, str)) or lift(x) is not None for x in leaves(v))}


def equal(j, name, got, want):
    try:
        g, w = list(leaves(got)), list(leaves(want))
    except TypeError:
        return j.fail(name)
    if len(g) != len(w):
        return j.fail(name, 'different length')
    bad = [(x, y) for x, y in zip(g, w) if not (x is y or lift(x) is not None and lift(x) is lift(y) or isinstance(x, (bool, type(None))) and x == y)]
    if not bad:
        return j._record(name, 'proved', 'syntactic')
    for x, y in bad[:3]:
        same(j, name, x, y)


def attempt(f, *a):
    """result or exception"""
    try:
        return f(*a)
    except (ValueError, TypeError, ZeroDivisionError, KeyError, AttributeError, IndexError, NotImplementedError) as e:
        return ['raises %s' % type(e).__name__]


def job(j):
    """name: kind: slice of the first orbit / slice of the other, part"""
    kind, rest = j.name.split(': ')
    sl, part = rest.split(', part ')
    na, nb = sl.split(' / ')
    A, B = Sub(na, j.seed, ''), Sub(nb, j.seed + 1, '_b')
    ops, make = ops26.table(kind)
    names = sorted(ops)
    i, n = (int(v) for v in part.split('/'))
    mine = names[i::n]
    keep = ops26.keepers(kind)

    def fn():
        S.COLLIDE[0] = j.ex.signless = False
        j.ex.merge = True
        sa, sb = A.subject(None), B.subject(None)
        orbits = []
        if kind.startswith('Orbit'):
            orbits = [sa, sb]
        plain = lambda: package([A, B], [])
        sa['k'], sb['k'] = A.register(j, plain), B.register(j, plain)
        for s, m in ((sa, A), (sb, B)):
            s['stable'] = not m.plunge
        sa2 = dict(sa, ph=sb['ph'], ph2=sb['ph2'], M=sb['M'], mu=sb['mu'], lam=sb['lam'], arr=sb['arr'], pos=sb['pos'], vel=sb['vel'])
        new = lambda: package([A, B], orbits)
        S.COLLIDE[0] = j.ex.signless = True
        ref = {}
        for f in names:
            P = new()
            o = attempt(make, P, sa)
            ref[f] = attempt(ops[f], P, o, sa)
        for g in mine:
            P = new()
            o = make(P, sa)
            attrs = {k: freeze(v) for k, v in public(o).items()}
            kept = {k: f(o, sa) for k, f in keep.items()}
            frozen = freeze(sa), freeze(sb)
            attempt(ops[g], P, make(P, sb), sb)
            if not kind.startswith('Orbit'):
                attempt(ops[g], P, make(P, sa2), sa2)
            if o is not None:
                attempt(ops[g], P, o, sa2)
            changed = freeze(sa) != frozen[0] or freeze(sb) != frozen[1]
            for f in names:
                equal(j, '%s after %s elsewhere' % (f, g), attempt(ops[f], P, o, sa), ref[f])
                if f == g:
                    equal(j, '%s twice' % f, attempt(ops[f], P, o, sa), ref[f])
            for k, fs in kept.items():
                f = {'trajectory': 'trajectory', 'deltas': 'deltas', 'four-velocity': 'four-velocity'}[k]
                equal(j, '%s, evaluated after %s elsewhere' % (k, g), attempt(ops26.run, fs, sa['lam']), ref[f])
            now = {k: freeze(v) for k, v in public(o).items()}
            for k in attrs:
                equal(j, 'attribute %s after %s' % (k, g), now.get(k, 'missing'), attrs[k])
            if changed or freeze(sa) != frozen[0] or freeze(sb) != frozen[1]:
                j.fail('arguments', 'changed by %s' % g)
        S.COLLIDE[0] = False
    smp = samples(j, A, B)
    j.check_sides = False
    j.nvalid = 2
    j.norm_budget = 2
    j.P = None
    load.CACHES[0] = True
    try:
        j.explore(fn, A.facts + B.facts + [lt(0, V('M')), lt(0, V('M_b'))], smp, tuple(smp[0]), defs=dict(A.defs, **B.defs), timeout=0.4)
    finally:
        S.COLLIDE[0] = load.CACHES[0] = False


def samples(j, A, B):
    rnd = random.Random(j.seed)
    out = []

    def add(s, t):
        d = dict(s)
        d.update({k + B.suf: v for k, v in t.items()})
        for suf in ('', B.suf):
            d.update({n + suf: q(rnd, 1, 9) if n in ('M', 'mu') else q(rnd, -5, 5) for n in SHARED})
            d['x1' + suf], d['x2' + suf] = q(rnd, 3, 20), q(rnd, 1, 2)
            for v in ('', '2'):
                d.update({'q_%s%s%s' % (c, v, suf): q(rnd, -9, 9) for c in PH})
        out.append(d)
    for s, t in zip(A.samples[:3], B.samples[:3]):
        add(s, t)
    if A.name == B.name:
        # the other orbit equals the first one but for one parameter, a little or a lot
        for s in A.samples[:2]:
            for k in A.keys:
                for d in (Fraction(1, 10), Fraction(1, 10 ** 3), Fraction(1, 10 ** 5)):
                    t = dict(s)
                    t[k] = s[k] * (1 - d) if k != 'p' else s[k] * (1 + d)
                    if t[k] != s[k] and (t[k] == 0) == (s[k] == 0):
                        add(s, t)
    else:
        for s in A.samples[:2]:
            t = dict(B.samples[0])
            for k in A.keys:
                if k in t and k == 'a':
                    t[k] = s[k]
            add(s, t)
    return out


PAIRS = {
    'stable orbit': ('kerr ecc pro / kerr ecc pro', 'kerr ecc retro / schw ecc pro', 'kerr circ pro / kerr ecc eqpro', 'kerr ecc eqretro / kerr ecc retro'),
    'stable functions': ('kerr ecc pro / kerr ecc pro', 'kerr ecc eqretro / kerr ecc pro', 'schw ecc retro / kerr circ retro'),
    'plunging orbit': ('complex inclined / complex inclined', 'inner inclined / complex equatorial', 'complex inclined / outer inclined'),
    'plunging functions': ('complex inclined / complex inclined', 'outer equatorial / inner inclined'),
    'Orbit, stable': ('kerr ecc pro / kerr ecc pro', 'kerr ecc retro / complex inclined'),
    'Orbit, plunging': ('complex inclined / kerr ecc retro', 'outer inclined / complex inclined'),
}


def jobs(tier, seed):
    out = []
    for kind, ps in PAIRS.items():
        parts = 1 if 'functions' in kind else 2
        for p in ps:
            out += [('%s: %s, part %d/%d' % (kind, p, i, parts), job) for i in range(parts)]
    return out


META = {
    'budget': {'quick': 200, 'thorough': 600},
    'bounds': 'histories of three calls: any operation on another orbit and with other arguments, then every operation (and again), for all values of the parameters of both orbits (slices of stable orbits and plunges, pairs of slices)',
    'outside': 'plots and animations; longer histories than the ones above; state kept outside the process',
    'stubs': ['separatrix: an unknown number between 1 and p', 'for Orbit: the classification, constants, parameters and phases computed from initial conditions', 'roots of the radial and polar polynomials of plunges: variables with their defining relations',
              'scipy elliptic functions and integrals are functions of their arguments'],
}
