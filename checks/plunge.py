"""Symbolic plunging orbits: slices, samples, radial roots as variables"""
from .common import *
from symk import numeric as N
from symk.sym import SymComplex
import numpy as np

SLICES = ('complex inclined', 'complex equatorial', 'outer inclined', 'outer equatorial', 'inner inclined', 'inner equatorial')
_rt = {}


def solve(a, E, L, Q):
    k = (a, E, L, Q)
    if k not in _rt:
        mp = N.mp
        a, E, L, Q = (mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mp.mpf(v) for v in k)
        cs = [E * E - 1, 2, a * a * (E * E - 1) - L * L - Q, 2 * ((a * E - L) ** 2 + Q)]
        zero = Q == 0
        if not zero:
            cs.append(-a * a * Q)
        try:
            rs = mp.polyroots(cs, maxsteps=300, extraprec=200)
        except mp.NoConvergence:
            rs = []
        rs = list(rs) + ([mp.mpf(0)] if zero else [])
        _rt[k] = (sorted(mp.re(r) for r in rs if abs(mp.im(r)) < 1e-15), [r for r in rs if abs(mp.im(r)) >= 1e-15])
    return _rt[k]


def nearly_double(rnd, want, tries=400, im=None):
    """constants of motion whose two complex radial roots lie close to the real axis, between the constants at which
    they collide; want(a, L, Q, E) tells whether the constants are wanted"""
    mp = N.mp
    for t in range(tries):
        a, L, Q = q(rnd, Fraction(1, 10), 1), q(rnd, -5, 5), rnd.choice([Fraction(0), q(rnd, 0, 6), q(rnd, 0, 1)])
        if t % 3 == 0:
            a, L, Q = q(rnd, Fraction(8, 10), 1), q(rnd, 0, 3), rnd.choice([Fraction(0), q(rnd, 0, Fraction(1, 2))])
        n = {}
        for k in range(8):
            E = q(rnd, Fraction(6, 10), 1)
            af, Ef, Lf, Qf = (float(v) for v in (a, E, L, Q))
            rs = np.roots([Ef * Ef - 1, 2, af * af * (Ef * Ef - 1) - Lf * Lf - Qf, 2 * ((af * Ef - Lf) ** 2 + Qf), -af * af * Qf])
            n[sum(abs(rs.imag) < 1e-9)] = E
        if not (2 in n and 4 in n) or L == 0:
            continue
        goal = im or rnd.choice([2e-4, 5e-4, 1e-3, 3e-3, 6e-3]) * rnd.uniform(.7, 1.4)
        lo, hi = n[4], n[2]
        for _ in range(40):
            m = (lo + hi) / 2
            m = Fraction(round(m * 10 ** 13), 10 ** 13)
            x = solve(a, m, L, Q)[1]
            y = abs(x[0].imag) if len(x) == 2 else 0
            if abs(y / goal - 1) < .1:
                if want(a, L, Q, m):
                    return {'a': a, 'E': m, 'L': L, 'Q': Q}
                break
            if y > goal:
                hi = m
            else:
                lo = m
    return None


class Plunge:
    """slice 'complex|outer|inner inclined|equatorial': outer = the plunge uses the two largest of four real roots,
    inner = the two smallest (there is also a bound orbit with the same constants)"""

    def __init__(self, name, seed=1, nsamples=8, suffix=''):
        self.name = name
        kind, inc = name.split(':')[0].split()[:2]
        self.kind, self.eq = kind, inc == 'equatorial'
        s = suffix
        self.a, self.E, self.L = V('a' + s), V('E' + s), V('L' + s)
        self.Q = K(0) if self.eq else V('Q' + s)
        self.rnd = rnd = random.Random('%s %s %s' % (name, seed, suffix))
        self.suffix = s
        self.domain = [lt(0, self.a), lt(self.a, 1), lt(0, self.E), lt(self.E, 1)] + ([] if self.eq else [lt(0, self.Q)])
        self.samples = []
        tries = 0
        while len(self.samples) < nsamples and tries < 20000:
            tries += 1
            a = q(rnd, Fraction(1, 10), 1)
            near = kind == 'outer' and tries % 3      # three roots inside the inner horizon: fast spin, small L and Q
            if near:
                a = q(rnd, Fraction(8, 10), 1)
            p = {'a': a, 'E': q(rnd, Fraction(6, 10), 1), 'L': q(rnd, 0, 2) if near else q(rnd, -5, 5),
                 'Q': Fraction(0) if self.eq else q(rnd, 0, Fraction(1, 5)) if near else q(rnd, 0, 12)}
            if p['L'] == 0 or not self.quick(p):
                continue
            if self.classify(p) != kind:
                continue
            p2 = {k + s: v for k, v in p.items()}
            self.samples.append(p2)
        if kind == 'complex':
            # complex roots close to the real axis
            for k in range(max(1, nsamples // 4)):
                p = nearly_double(rnd, lambda a, L, Q, E: (Q == 0) == self.eq and self.classify({'a': a, 'E': E, 'L': L, 'Q': Q}) == kind)
                if p:
                    self.samples.append({k + s: v for k, v in p.items()})
        self.names = tuple(k + s for k in ('a', 'E', 'L', 'Q'))
        self._roots()

    def quick(self, p):
        """floating point preselection"""
        a, E, L, Q = (float(p[k]) for k in 'aELQ')
        rs = np.roots([E * E - 1, 2, a * a * (E * E - 1) - L * L - Q, 2 * ((a * E - L) ** 2 + Q), -a * a * Q])
        re = np.sort(rs[abs(rs.imag) < 1e-6].real)
        if self.kind == 'complex':
            return len(re) == 2
        return len(re) == 4 and (re[1] > 1 - (1 - a * a) ** .5) == (self.kind == 'inner')

    @staticmethod
    def classify(p):
        re, im = solve(p['a'], p['E'], p['L'], p['Q'])
        if len(re) + len(im) != 4:
            return None
        rm = 1 - N.mp.sqrt(1 - N.mp.mpf(p['a'].numerator) ** 2 / p['a'].denominator ** 2)
        if len(im) == 2:
            return 'complex' if abs(im[0].imag) > 1e-4 and re[1] - re[0] > 1e-3 else None
        if len(re) == 4:
            if min(b - a for a, b in zip(re, re[1:])) < 1e-3:
                return None
            return 'inner' if re[1] > rm else 'outer'
        return None

    def _roots(self):
        s = self.suffix
        nm = self.names

        def num(i, part):
            def f(env):
                v = []
                for k in nm:
                    x = env.get(k, Fraction(0) if k.startswith('Q') else None)
                    v.append(x)
                re, im = solve(*v)
                if part == 're':
                    return N.mp.re(im[0]) if len(im) == 2 else None
                if part == 'im':
                    return abs(N.mp.im(im[0])) if len(im) == 2 else None
                want = 2 if self.kind == 'complex' else 4
                return re[i] if len(re) == want else None
            return f
        self.defs = {}
        w = V('w' + s)
        self.w = w
        self.defs['w' + s] = lambda env: N.mp.sqrt(1 - N.evalf(self.a.n, env) ** 2)
        lead = self.E ** 2 - 1
        f = []
        if self.kind == 'complex':
            r1, r2, re, im = (V(k + s) for k in ('r1', 'r2', 'rho_r', 'rho_i'))
            if self.eq:
                # the potential has the factor r; its other real root is r2
                r1 = K(0)
            else:
                self.defs['r1' + s] = num(0, '')
            self.defs['r2' + s] = num(1, '')
            self.defs['rho_r' + s], self.defs['rho_i' + s] = num(0, 're'), num(0, 'im')
            self.roots = (r1, r2, re, im)
            self.sorted = [r1, r2, SymComplex(re, -im), SymComplex(re, im)]
            f += [lt(r1, 1 - w), lt(1 + w, r2), lt(0, im)] + ([] if self.eq else [lt(0, r1)])
        else:
            v = [V('s%d' % k + s) for k in range(4)]
            if self.eq:
                v[0] = K(0)
            for k in range(4):
                if not (self.eq and k == 0):
                    self.defs['s%d' % k + s] = num(k, '')
            a, b, c, d = v
            f += ([] if self.eq else [lt(0, a)]) + [lt(a, b), lt(b, c), lt(c, d)]
            if self.kind == 'outer':
                f += [lt(c, 1 - w), lt(1 + w, d)]
                self.roots = (d, c, b, a)
            else:
                f += [lt(a, 1 - w), lt(1 + w, b)]
                self.roots = (b, a, d, c)
            self.sorted = v
            a, E, L, Q = self.a, self.E, self.L, self.Q
            if self.eq:
                self.zm, self.zp = K(0), 1 + L ** 2 / (a ** 2 * (1 - E ** 2))
            else:
                self.zm, self.zp = V('zm' + s), V('zp' + s)
                self.defs['zm' + s], self.defs['zp' + s] = lambda env: self.polar(env)[0], lambda env: self.polar(env)[1]
                f += [lt(0, self.zm), lt(self.zm, 1), lt(1, self.zp), eq(Q, a ** 2 * (1 - E ** 2) * self.zm * self.zp),
                      eq(L ** 2, a ** 2 * (1 - E ** 2) * (1 - self.zm) * (self.zp - 1))]
        self.facts = self.domain + [lt(0, w), lt(w, 1), eq(w * w, 1 - self.a ** 2)] + f

    def polar(self, env):
        """roots z = cos^2 theta of the polar equation"""
        a, E, L, Q = (N.evalf(v.n, env) for v in (self.a, self.E, self.L, self.Q))
        b = a * a * (1 - E * E)
        h = (Q + b + L * L) / (2 * b)
        d = N.mp.sqrt(h * h - Q / b)
        return Q / b / (h + d), h + d

    def coefs(self):
        a, E, L, Q = self.a, self.E, self.L, self.Q
        return [-a ** 2 * Q, 2 * L ** 2 + 2 * Q + 2 * a ** 2 * E ** 2 - 4 * a * E * L, a ** 2 * E ** 2 - L ** 2 - Q - a ** 2, K(2), E ** 2 - 1]

    def register(self, j):
        """at the start of a path: tell the explorer the roots of the radial polynomial, and that w = sqrt(1 - a^2)"""
        ex = j.ex
        ex.known_polys.append(([lift(c) for c in self.coefs()], list(self.sorted)))
        if self.kind != 'complex':
            b = self.a ** 2 * (1 - self.E ** 2)
            ex.known_polys.append(([lift(c) for c in (self.Q, -(self.Q + b + self.L ** 2), b)], [self.zm, self.zp]))
        X.CUT[lift(sqrt(1 - self.a ** 2))] = self.w.n

    def R(self, r):
        """the radial potential in terms of its roots"""
        E = self.E
        if self.kind == 'complex':
            r1, r2, re, im = self.roots
            return (1 - E ** 2) * (r2 - r) * (r - r1) * ((r - re) ** 2 + im ** 2)
        r1, r2, r3, r4 = self.roots
        return (1 - E ** 2) * (r1 - r) * (r - r2) * (r - r3) * (r - r4)
