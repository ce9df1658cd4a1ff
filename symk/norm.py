"""Normal forms: nodes as elements of Q(variables, opaque applications)[square roots, cn, dn, cos]/relations.

An element is num / (q * prod den_i^e_i): num is a sparse integer polynomial (packed exponents), den_i are
polynomials that occurred as denominators.  Square roots are split into square roots of irreducible factors
whose sign is known on the path; squares of the algebraic generators are reduced, so an expression is
identically zero (wherever its denominators do not vanish) exactly when its reduced numerator is empty."""
from fractions import Fraction
from math import gcd
import sympy
from . import expr as X
from . import numeric as N

BITS = 12
MASK = (1 << BITS) - 1
LIMIT = [400000]


class Failed(Exception):
    pass


def padd(p, q, k=1):
    if not p and k == 1:
        return dict(q)
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        elif m in r:
            del r[m]
    return r


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 60 * LIMIT[0]:
        raise Failed('polynomial product too large (%d x %d)' % (len(p), len(q)))
    if len(p) == 1:
        (m, c), = p.items()
        if m == 0:
            return {k: v * c for k, v in q.items()}
        return {k + m: v * c for k, v in q.items()}
    r = {}
    get = r.get
    for m, c in p.items():
        for n, d in q.items():
            k = m + n
            r[k] = get(k, 0) + c * d
    r = {k: v for k, v in r.items() if v}
    if len(r) > LIMIT[0]:
        raise Failed('polynomial too large')
    return r


def ppow(p, k):
    r = {0: 1}
    while k:
        if k & 1:
            r = pmul(r, p)
        k >>= 1
        if k:
            p = pmul(p, p)
    return r


def pcontent(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def pneg(p):
    return {m: -c for m, c in p.items()}


class El:
    __slots__ = ('num', 'q', 'den')

    def __init__(self, num, q=1, den=None):
        self.num, self.q, self.den = num, q, den or {}


class Field:
    def __init__(self, ex=None):
        self.ex = ex
        self.gens = []           # description of each generator: ('node', node) | ('sqrt', poly)
        self.by_node = {}        # node -> generator index
        self.sqr = {}            # generator index -> ('poly', poly) or ('frac', El): its square
        self.facs = []           # denominator factors
        self.facid = {}          # frozenset(items) -> id
        self.fpow = {}
        self.eager = True
        self.rational = False    # clear square roots from denominators, sum terms with common denominators first
        self.memo = {}
        self.roots = {}          # frozenset(poly items) -> generator index of its square root
        self.apps = {}           # function name -> [(node, arg elements, generator index)]
        self.dnrad = {}          # frozenset(primitive radicand) -> (dn generator, multiplier under the root, sign)
        self.cnpairs = []        # (sn generator, cn generator)
        self.signs = {}
        self.factored = {}
        self.assumed = []        # signs taken from the path without a separate proof (never used silently)

    # ------------------------------------------------------------ generators
    def gen(self, desc):
        self.gens.append(desc)
        return len(self.gens) - 1

    def mono(self, g, k=1):
        return k << (BITS * g)

    def gel(self, g):
        return El({self.mono(g): 1})

    def exps(self, m):
        out = []
        g = 0
        while m:
            e = m & MASK
            if e:
                out.append((g, e))
            m >>= BITS
            g += 1
        return out

    def pgens(self, p):
        s = 0
        for m in p:
            s |= m
        return [g for g, e in self.exps(s)]

    def node_of(self, g):
        d = self.gens[g]
        if d[0] == 'node':
            return d[1]
        return X.fn('sqrt', self.poly_node(d[1]))

    def poly_node(self, p):
        return X.add(*[X.scale(c, X._powprod([(self.node_of(g), e) for g, e in self.exps(m)])) for m, c in p.items()]) if p else X.const(0)

    def full_node(self, e):
        """the element as an expression"""
        d = [X.const(e.q)] + [X.power(self.poly_node(self.facs[k]), n) for k, n in e.den.items()]
        return X.div(self.poly_node(e.num), X.mul(*d))

    # ------------------------------------------------------------ reduction
    def reduce(self, el):
        """replace squares of algebraic generators"""
        num, q, den = el.num, el.q, el.den
        if not num:
            return El({})
        again = True
        while again:
            again = False
            for g in reversed(self.pgens(num)):
                if g not in self.sqr:
                    continue
                sh = BITS * g
                top = 0
                for m in num:
                    e = (m >> sh) & MASK
                    if e > top:
                        top = e
                if top < 2:
                    continue
                again = True
                kind, val = self.sqr[g]
                J = top // 2
                parts = {}
                for m, c in num.items():
                    e = (m >> sh) & MASK
                    j = e // 2
                    parts.setdefault(j, {})[m - (2 * j << sh)] = c
                if kind == 'poly':
                    out = parts.get(0, {})
                    pw = {0: 1}
                    for j in range(1, J + 1):
                        pw = pmul(pw, val)
                        if j in parts:
                            out = padd(out, pmul(parts[j], pw))
                    num = out
                else:
                    # square = vn / (vq * vden): bring everything over (vq*vden)^J
                    vn, vq, vd = val.num, val.q, val.den
                    dp = {0: vq}
                    for f, e in vd.items():
                        dp = pmul(dp, self.factor_power(f, e))
                    out = {}
                    for j, part in parts.items():
                        out = padd(out, pmul(part, pmul(ppow(vn, j), ppow(dp, J - j))))
                    num = out
                    q = q * vq ** J
                    den = dict(den)
                    for f, e in vd.items():
                        den[f] = den.get(f, 0) + e * J
                break
        return self.tidy(El(num, q, den))

    def tidy(self, el):
        if not el.num:
            return El({})
        if el.q != 1:
            g = gcd(pcontent(el.num), el.q)
            if g > 1:
                return El({m: c // g for m, c in el.num.items()}, el.q // g, el.den)
        return el

    def factor_power(self, f, e):
        k = (f, e)
        if k not in self.fpow:
            self.fpow[k] = ppow(self.facs[f], e)
        return self.fpow[k]

    def fac(self, p):
        """register a denominator factor (primitive, leading coefficient positive); -> (id, sign)"""
        lead = p[max(p)]
        s = 1
        if lead < 0:
            p, s = pneg(p), -1
        k = frozenset(p.items())
        if k not in self.facid:
            self.facid[k] = len(self.facs)
            self.facs.append(p)
        return self.facid[k], s

    # ------------------------------------------------------------ arithmetic
    def const(self, c):
        c = Fraction(c)
        return El({0: c.numerator}, c.denominator) if c else El({})

    def mul(self, a, b):
        if not a.num or not b.num:
            return El({})
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
        # cancel monomial/known factors cheaply: a factor that is exactly one operand's numerator
        an, bn = a.num, b.num
        for which in (0, 1):
            n = an if which == 0 else bn
            if den and 1 < len(n) <= 40:
                k = frozenset(n.items())
                f = self.facid.get(k)
                s = 1
                if f is None:
                    f, s = self.facid.get(frozenset(pneg(n).items())), -1
                if f is not None and den.get(f, 0) > 0:
                    den[f] -= 1
                    if not den[f]:
                        del den[f]
                    if which == 0:
                        an = {0: s}
                    else:
                        bn = {0: s}
        r = self.reduce(El(pmul(an, bn), a.q * b.q, den))
        return self.cancel(r) if self.eager else r

    def sum(self, els):
        els = [e for e in els if e.num]
        while self.rational and len(els) > 2:
            # terms with a large common denominator first: it usually cancels
            uses = {}
            for e in els:
                for f in e.den:
                    uses[f] = uses.get(f, 0) + 1
            for f in sorted(uses, key=lambda f: -len(self.facs[f])):
                if 1 < uses[f] < len(els):
                    mine = [e for e in els if f in e.den]
                    els = [e for e in els if f not in e.den]
                    s = self._sum(mine)
                    if s.num:
                        els.append(s)
                    break
            else:
                break
        return self._sum(els)

    def _sum(self, els):
        if not els:
            return El({})
        if len(els) == 1:
            return els[0]
        den = {}
        q = 1
        for e in els:
            for f, k in e.den.items():
                if den.get(f, 0) < k:
                    den[f] = k
            q = q * e.q // gcd(q, e.q)
        groups = {}
        for e in els:
            miss = tuple(sorted((f, k - e.den.get(f, 0)) for f, k in den.items() if k > e.den.get(f, 0)))
            groups[miss] = padd(groups.get(miss, {}), e.num, q // e.q)
        out = {}
        for miss, n in groups.items():
            for f, k in sorted(miss, key=lambda fk: len(self.facs[fk[0]])):
                n = pmul(n, self.factor_power(f, k))
            out = padd(out, n)
        return self.cancel(self.reduce(El(out, q, den)))

    def pow(self, a, k):
        if k < 0:
            return self.pow(self.inv(a), -k)
        r = El({0: 1})
        while k:
            if k & 1:
                r = self.mul(r, a)
            k >>= 1
            if k:
                a = self.mul(a, a)
        return r

    def inv(self, a):
        if not a.num:
            raise ZeroDivisionError('inverse of an expression that is identically zero')
        num = {0: a.q}
        for f, e in a.den.items():
            num = pmul(num, self.factor_power(f, e))
        if self.rational:
            k = self.conjugate(a.num)
            if k is not None:
                n = self.reduce(El(pmul(a.num, k)))
                return self.mul(El(pmul(num, k)), self.inv(n))
        c, facs = self.factor(a.num)
        q = 1
        if c < 0:
            num = pneg(num)
            c = -c
        q = c
        den = {}
        res_mul = []
        for p, e in facs:
            if len(p) == 1:
                (m, cc), = p.items()
                g = self.exps(m)[0][0]
                if g in self.sqr:
                    # 1/s^e = s^e / (s^2)^e
                    num = pmul(num, {self.mono(g, e): 1})
                    kind, val = self.sqr[g]
                    v = El(val) if kind == 'poly' else val
                    res_mul.append(self.pow(self.inv(v), e))
                    continue
            f, s = self.fac(p)
            if s < 0 and e % 2:
                num = pneg(num)
            den[f] = den.get(f, 0) + e
        r = self.cancel(self.reduce(El(num, q, den)))
        for m in res_mul:
            r = self.mul(r, m)
        return r

    def conjugate(self, p):
        """u - v when p = u + v and the square roots occur in u and v as one monomial each"""
        alg = 0
        for g in self.pgens(p):
            if g in self.sqr:
                alg |= MASK << (BITS * g)
        if not alg:
            return None
        keys = sorted({m & alg for m in p})
        if len(keys) != 2:
            return None
        return {m: -v if m & alg == keys[1] else v for m, v in p.items()}

    def cancel(self, el):
        """divide out denominator factors that divide the numerator"""
        if not el.den or not el.num or len(el.num) > 3000:
            return el
        num, den = el.num, dict(el.den)
        for f in list(den):
            fp = self.facs[f]
            while den.get(f, 0) > 0:
                r = self.pdiv(num, fp)
                if r is None:
                    break
                num = r
                den[f] -= 1
                if den[f] == 0:
                    del den[f]
        return El(num, el.q, den)

    def pdiv(self, p, d):
        """exact quotient p/d of integer polynomials, or None"""
        if len(d) == 1:
            (dm, dc), = d.items()
            ex = self.exps(dm)
            out = {}
            for m, c in p.items():
                if c % dc or any(((m >> (BITS * g)) & MASK) < e for g, e in ex):
                    return None
                out[m - dm] = c // dc
            return out
        # quick refusal: evaluate at a point where d vanishes modulo a prime
        dl = max(d)
        dc = d[dl]
        dex = self.exps(dl)
        r = dict(p)
        out = {}
        rest = [(m, c) for m, c in d.items() if m != dl]
        import heapq
        heap = [-m for m in r]
        heapq.heapify(heap)
        steps = 0
        while heap:
            m = -heapq.heappop(heap)
            c = r.get(m)
            if not c:
                continue
            if c % dc or any(((m >> (BITS * g)) & MASK) < e for g, e in dex):
                return None
            k, qc = m - dl, c // dc
            out[k] = qc
            del r[m]
            steps += 1
            if steps > 20000:
                return None
            for n, cc in rest:
                t = n + k
                v = r.get(t, 0) - qc * cc
                if v:
                    if t not in r:
                        heapq.heappush(heap, -t)
                    r[t] = v
                elif t in r:
                    del r[t]
        return out

    # ------------------------------------------------------------ factoring
    def factor(self, p):
        """p = c * prod f^e with primitive factors (monomials split into generators)"""
        k = frozenset(p.items())
        if k in self.factored:
            return self.factored[k]
        c = pcontent(p)
        out = []
        # monomial content
        common = None
        for m in p:
            e = dict(self.exps(m))
            common = e if common is None else {g: min(v, e.get(g, 0)) for g, v in common.items() if e.get(g, 0)}
            if not common:
                break
        if common:
            mm = 0
            for g, e in common.items():
                mm += self.mono(g, e)
                out.append(({self.mono(g): 1}, e))
            p = {m - mm: v for m, v in p.items()}
        p = {m: v // c for m, v in p.items()}
        if len(p) > 1 and p[max(p)] < 0:
            p = pneg(p)
            c = -c
        if len(p) == 1:
            (m, v), = p.items()
            c *= v
        elif len(p) == 2 and self._linear(p):
            out.append((p, 1))
        else:
            # trial division by known factors first
            rest = p
            if len(rest) <= 400:
                for f in list(self.facs):
                    if len(f) > 1 and len(f) < len(rest) and max(f) <= max(rest):
                        n = 0
                        while True:
                            d = self.pdiv(rest, f)
                            if d is None:
                                break
                            rest = d
                            n += 1
                        if n:
                            out.append((f, n))
            if len(rest) == 1:
                (m, v), = rest.items()
                c *= v
                for g, e in self.exps(m):
                    out.append(({self.mono(g): 1}, e))
            elif len(rest) > 400 or self._linear(rest):
                out.append((rest, 1))
            else:
                cc, fs = self._sympy_factor(rest)
                c *= cc
                out += fs
        r = (c, out)
        self.factored[k] = r
        return r

    def _linear(self, p):
        """some generator occurs linearly with a constant coefficient: irreducible"""
        for g in self.pgens(p):
            sh = BITS * g
            ms = [m for m in p if (m >> sh) & MASK]
            if len(ms) == 1 and ms[0] == self.mono(g) :
                return True
        return False

    def _sympy_factor(self, p):
        gs = self.pgens(p)
        names = ['g%d' % g for g in gs]
        R = sympy.ring(names, sympy.ZZ)[0]
        e = R.zero
        d = {}
        for m, c in p.items():
            d[tuple((m >> (BITS * g)) & MASK for g in gs)] = c
        e = R.from_dict(d)
        c, fs = e.factor_list()
        out = []
        for f, k in fs:
            q = {}
            for t, cc in f.terms():
                m = 0
                for g, ee in zip(gs, t):
                    m += ee << (BITS * g)
                q[m] = int(cc)
            if q[max(q)] < 0:
                q = pneg(q)
                if k % 2:
                    c = -c
            out.append((q, k))
        return int(c), out

    # ------------------------------------------------------------ signs
    def sign(self, p):
        """'+', '-' or None for a polynomial on the current path (weak: zero allowed)"""
        k = frozenset(p.items())
        if k in self.signs:
            return self.signs[k]
        n = self.poly_node(p)
        s = X.known_sign(n)
        r = s[-1] if s else None
        if r is None and self.ex is not None:
            r = self.ex.sign_of(n)
        self.signs[k] = r
        return r

    def positive(self, e):
        """note that an element is positive: gives the sign of its only factor of unknown sign"""
        c, fs = self.factor(e.num)
        s, unknown = c > 0, []
        for p, m in fs + [(self.facs[f], m) for f, m in e.den.items()]:
            if m % 2:
                t = self.sign(p)
                if t is None:
                    unknown.append(p)
                elif t == '-':
                    s = not s
        if len(unknown) == 1:
            self.signs[frozenset(unknown[0].items())] = '+' if s else '-'

    # ------------------------------------------------------------ nodes
    def el(self, n):
        m = self.memo.get(n)
        if m is not None:
            return m
        for k in X.walk([n]):
            if k not in self.memo:
                self.memo[k] = self._conv(k)
        return self.memo[n]

    def _conv(self, k):
        if k.kind == 'c':
            return self.const(k.args)
        if k.kind == 'v':
            return self.gel(self._nodegen(k))
        if k.kind == 'a':
            els = [self.const(k.args[0])]
            for t, c in k.args[1]:
                e = self.memo[t]
                els.append(self.tidy(El({m: v * c.numerator for m, v in e.num.items()}, e.q * c.denominator, e.den)))
            return self.sum(els)
        if k.kind == 'm':
            items = sorted(((self.memo[b], e) for b, e in k.args), key=lambda be: len(be[0].num))
            r = El({0: 1})
            for b, e in items:
                r = self.mul(r, self.pow(b, e))
            return self.cancel(r)
        return self._app(k)

    def _nodegen(self, k):
        if k not in self.by_node:
            self.by_node[k] = self.gen(('node', k))
        return self.by_node[k]

    def is_zero_el(self, e):
        return not e.num

    def same(self, a, b, ea, eb):
        if a is b:
            return True
        # numeric refutation on the path's sample points
        if self.ex is not None:
            for env, memo in zip(self.ex._live[:4], self.ex._memos[:4]):
                try:
                    u, v = N.evalf(a, env, memo), N.evalf(b, env, memo)
                except N.Undefined:
                    continue
                if abs(u - v) > N.mp.mpf(10) ** -12 * (1 + abs(u)):
                    return False
        try:
            d = self.sum([ea, self.neg(eb)])
        except Failed:
            return False
        return not d.num

    def neg(self, a):
        return El(pneg(a.num), a.q, a.den)

    def sub(self, a, b):
        return self.sum([a, self.neg(b)])

    def _lookup(self, name, nodes, els):
        for nd, es, val in self.apps.get(name, ()):
            if len(nd) == len(nodes) and all(self.same(x, y, ex_, ey) for x, y, ex_, ey in zip(nodes, nd, els, es)):
                return val
        return None

    def _store(self, name, nodes, els, val):
        self.apps.setdefault(name, []).append((nodes, els, val))
        return val

    def _app(self, k):
        name = k.args[0]
        nodes = k.args[1:]
        els = [self.memo[x] for x in nodes]
        if name == 'sqrt':
            return self.sqrt(els[0])
        if name == 'abs':
            return self.absval(els[0], k)
        if name == 'sign' and els[0].num:
            c, fs = self.factor(els[0].num)
            s = 1 if c > 0 else -1
            for p, mult in fs + [(self.facs[f], mult) for f, mult in els[0].den.items()]:
                t = self.sign(p) if mult % 2 else '+'
                if t is None:
                    break
                if t == '-':
                    s = -s
            else:
                return self.const(s)
        if name in ('sin', 'cos'):
            v = self._lookup('sincos', nodes, els)
            if v is None:
                s = self._nodegen(X._mk('f', ('sin', nodes[0])))
                c = self._nodegen(X._mk('f', ('cos', nodes[0])))
                self.sqr[c] = ('poly', padd({0: 1}, {self.mono(s, 2): -1}))
                self.cnpairs.append((s, c))
                v = self._store('sincos', nodes, els, (s, c))
            return self.gel(v[0] if name == 'sin' else v[1])
        if name in ('sn', 'cn', 'dn'):
            v = self._lookup('jac', nodes, els)
            if v is None:
                s, c, d = (self._nodegen(X._mk('f', (t,) + nodes)) for t in ('sn', 'cn', 'dn'))
                self.sqr[c] = ('poly', padd({0: 1}, {self.mono(s, 2): -1}))
                self.cnpairs.append((s, c))
                m = els[1]
                sq = self.sub(El({0: 1}), self.mul(m, El({self.mono(s, 2): 1})))
                self.sqr[d] = ('frac', sq)
                # radicand of dn
                if len(sq.num) < 400:
                    cc, fs = self.factor(sq.num)
                    if len(fs) == 1 and fs[0][1] == 1:
                        self.dnrad[frozenset(fs[0][0].items())] = (d, sq, cc)
                v = self._store('jac', nodes, els, (s, c, d))
            g = v[('sn', 'cn', 'dn').index(name)]
            return g if isinstance(g, El) else self.gel(g)
        v = self._lookup(name, nodes, els)
        if v is None:
            v = self._store(name, nodes, els, self._nodegen(k))
        return self.gel(v)

    def absval(self, e, k):
        if not e.num:
            return El({})
        c, fs = self.factor(e.num)
        s = 1 if c > 0 else -1
        ok = True
        for p, m in fs + [(self.facs[f], m) for f, m in e.den.items()]:
            if m % 2:
                t = self.sign(p)
                if t is None:
                    ok = False
                    break
                if t == '-':
                    s = -s
        if ok:
            return e if s > 0 else self.neg(e)
        # |x| as an algebraic generator with |x|^2 = x^2
        nodes, els = k.args[1:], [e]
        v = self._lookup('abs', nodes, els)
        if v is None:
            g = self._nodegen(k)
            self.sqr[g] = ('frac', self.mul(e, e))
            v = self._store('abs', nodes, els, g)
        return self.gel(v)

    def sqrt(self, e):
        if not e.num:
            return El({})
        c, fs = self.factor(e.num)
        rat = Fraction(c, e.q)
        facs = [(p, m) for p, m in fs]
        for f, m in e.den.items():
            facs.append((self.facs[f], -m))
        out = El({0: 1})
        odd = {}
        for p, m in facs:
            if m % 2:
                kk = frozenset(p.items())
                odd[kk] = p
                h = (m - 1) // 2      # p^m = p * (p^h)^2
            else:
                h = m // 2
            if h:
                a = El(p)
                if h % 2:
                    t = self.sign(p)
                    if t is None:
                        raise Failed('unknown sign of %s under a square root' % X.show(self.poly_node(p)))
                    if t == '-':
                        a = self.neg(a)
                out = self.mul(out, self.pow(a, h))
        # pairs (s-1)(s+1) -> cn^2
        for s, cgen in self.cnpairs:
            lo = {self.mono(s): 1, 0: -1}
            hi = {self.mono(s): 1, 0: 1}
            a, b = frozenset(lo.items()), frozenset(hi.items())
            if a in odd and b in odd:
                del odd[a], odd[b]
                rat = -rat
                ce = self.gel(cgen)
                t = self.sign({self.mono(cgen): 1})
                if t is None:
                    t2 = El({self.mono(cgen): 1})
                    out = self.mul(out, self.absval(t2, X.fn('abs', self.node_of(cgen)) if False else X._mk('f', ('abs', self.node_of(cgen)))))
                else:
                    out = self.mul(out, ce if t == '+' else self.neg(ce))
        for kk in list(odd):
            if kk in self.dnrad:
                d, sq, cc = self.dnrad[kk]
                # p = sq.q*sq.den/cc * dn^2
                del odd[kk]
                out = self.mul(out, self.gel(d))
                rat = rat * Fraction(sq.q, cc)
                for f, m in sq.den.items():
                    p = self.facs[f]
                    fk = frozenset(p.items())
                    h, r = divmod(m, 2)
                    if r:
                        if fk in odd:
                            del odd[fk]
                            h += 1
                        else:
                            odd[fk] = p
                    if h:
                        t = self.sign(p) if h % 2 else '+'
                        if t is None:
                            raise Failed('unknown sign')
                        a = El(p) if t == '+' else El(pneg(p))
                        out = self.mul(out, self.pow(a, h))
        s = 1 if rat > 0 else -1
        unk = []
        for kk, p in sorted(odd.items(), key=lambda kp: sorted(kp[1].items())):
            t = self.sign(p)
            if t is None:
                unk.append(p)
                continue
            if t == '-':
                s = -s
                p = pneg(p)
            out = self.mul(out, self.rootgen(p))
        if unk:
            h = {0: 1}
            for p in unk:
                h = pmul(h, p)
            if s < 0:
                h = pneg(h)
            out = self.mul(out, self.rootgen(h))
        elif s < 0:
            raise Failed('square root of something that is not positive on this path')
        rat = abs(rat)
        out = El({m: v for m, v in out.num.items()}, out.q * rat.denominator, out.den)
        k = rat.numerator * rat.denominator
        sqf, rt = 1, 1
        f = 2
        while f * f <= k and f < 5000:
            while k % (f * f) == 0:
                k //= f * f
                rt *= f
            f += 1
        out = El({m: v * rt for m, v in out.num.items()}, out.q, out.den)
        if k > 1:
            for pr, ee in sympy.factorint(k, limit=100000).items():
                out = self.mul(out, self.pow(self.rootgen({0: int(pr)}), ee))
        return self.tidy(out)

    def rootgen(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if m == 0 and c == 1:
                return El({0: 1})
        k = frozenset(p.items())
        if k not in self.roots:
            g = self.gen(('sqrt', p))
            self.sqr[g] = ('poly', p)
            self.roots[k] = g
        return self.gel(self.roots[k])


def field(ex):
    f = getattr(ex, '_field', None)
    if f is None or f[0] is not ex.path or f[1] != len(ex.path.pc):
        f = (ex.path, len(ex.path.pc), Field(ex))
        ex._field = f
        if getattr(ex, 'field_init', None):
            ex.field_init(f[2])
    return f[2]


def is_zero(d, ex):
    """True when d is identically zero on the path, None when its normal form is not empty"""
    e = field(ex).el(d)
    return True if not e.num else None


OPAQUE = ('K', 'E', 'F', 'Einc', 'RF', 'RD', 'RJ', 'log', 'arctan', 'arctan2', 'arcsin', 'arccos', 'am', 'floor')


def split(n, f, atoms=OPAQUE, limit=4000, variables=()):
    """n = sum over monomials in opaque function values of monomial * coefficient: the list of coefficients.

    The opaque values are identified by their generator in the field f, so that differently written but equal
    arguments count as the same value.  If n cannot be written like this, [n] is returned."""
    memo = {}
    keys = {}

    def atom(k):
        e = f.el(k)
        if len(e.num) != 1 or e.den:
            raise Failed('opaque value')
        (m, c), = e.num.items()
        gs = f.exps(m)
        if len(gs) != 1 or gs[0][1] != 1:
            raise Failed('opaque value')
        return 'g%d' % gs[0][0], Fraction(c, e.q)

    def rec(k):
        if k in memo:
            return memo[k]
        if k.kind == 'a':
            out = {}
            if k.args[0]:
                out[()] = [X.const(k.args[0])]
            for t, c in k.args[1]:
                for mk, v in rec(t).items():
                    out.setdefault(mk, []).append(X.scale(c, v))
            out = {mk: X.add(*v) for mk, v in out.items()}
        elif k.kind == 'm':
            out = {(): X.const(1)}
            for b, e in k.args:
                d = rec(b)
                if len(d) == 1:
                    (mk, v), = d.items()
                    pw = {tuple((g, x * e) for g, x in mk): X.power(v, e)}
                elif e > 0 and e <= 3:
                    pw = {(): X.const(1)}
                    for _ in range(e):
                        pw = prod(pw, d)
                else:
                    raise Failed('denominator with opaque values')
                out = prod(out, pw)
        elif k.kind == 'v' and k.args in variables:
            out = {((k.args, 1),): X.const(1)}
        elif k.kind == 'f' and k.args[0] in atoms:
            g, c = atom(k)
            out = {((g, 1),): X.const(c)}
        elif k.kind == 'f' and k.args[0] in ('sqrt', 'abs', 'sign') and any(w.kind == 'f' and w.args[0] in atoms and not _inner(w) for w in X.walk([k])):
            # an opaque value under a root: leave it where it is
            out = {(): k}
        else:
            out = {(): k}
        if len(out) > limit:
            raise Failed('too many opaque monomials')
        memo[k] = out
        return out

    def prod(p, q):
        out = {}
        for a, u in p.items():
            for b, v in q.items():
                d = dict(a)
                for g, x in b:
                    d[g] = d.get(g, 0) + x
                mk = tuple(sorted((g, x) for g, x in d.items() if x))
                out.setdefault(mk, []).append(X.mul(u, v))
        return {mk: X.add(*v) for mk, v in out.items()}

    def _inner(w):
        return False
    try:
        r = rec(n)
    except Failed:
        return [((), n)]
    # a value occurring both as a monomial and hidden inside another function makes the split merely sufficient
    return sorted(r.items(), key=lambda t: (t[0] == (), len(X.walk([t[1]]))))
