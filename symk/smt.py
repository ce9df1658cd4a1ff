"""Translation of nodes and conditions to z3 and the solver calls."""
import threading
import time
from fractions import Fraction
import z3
from . import expr as X
from . import numeric as N

STATS = {'queries': 0, 'time': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0}


class Trans:
    """node -> z3 real term, collecting defining constraints for the introduced variables"""

    def __init__(self, abstract=()):
        self.memo = {}
        self.defs = []          # constraints that define introduced variables
        self.vars = {}          # name -> z3 var
        self.atoms = {}         # node -> z3 var for opaque applications
        self.abstract = set(abstract)
        self._pairs = set()
        self.k = 0

    def fresh(self, hint):
        self.k += 1
        return z3.Real('%s!%d' % (hint, self.k))

    def var(self, name):
        if name not in self.vars:
            v = z3.Real(name)
            self.vars[name] = v
            if name == 'pi':
                self.defs += [v > z3.Q(314159, 100000), v < z3.Q(31416, 10000)]
        return self.vars[name]

    def num(self, f):
        return z3.Q(f.numerator, f.denominator)

    def term(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        for k in X.walk([n]):
            if k.id not in self.memo:
                self.memo[k.id] = self._one(k)
        return self.memo[n.id]

    def _one(self, k):
        m = self.memo
        if k.kind == 'c':
            return self.num(k.args)
        if k.kind == 'v':
            return self.var(k.args)
        if k.kind == 'a':
            ts = [] if k.args[0] == 0 else [self.num(k.args[0])]
            for t, c in k.args[1]:
                ts.append(m[t.id] if c == 1 else self.num(c) * m[t.id])
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        if k.kind == 'm':
            ts = []
            for b, e in k.args:
                t = m[b.id]
                if e < 0:
                    key = ('inv', b.id)
                    if key not in m:
                        v = self.fresh('inv')
                        self.defs.append(v * t == 1)
                        m[key] = v
                    t = m[key]
                ts += [t] * abs(e)
            return z3.Product(ts) if len(ts) > 1 else ts[0]
        return self._fn(k)

    def _fn(self, k):
        name = k.args[0]
        a = [self.memo[x.id] for x in k.args[1:]]
        v = self.fresh(name)
        self.atoms[k] = v
        d = self.defs
        if name == 'sqrt':
            d += [v >= 0, v * v == a[0]]
        elif name == 'abs':
            d.append(v == z3.If(a[0] >= 0, a[0], -a[0]))
        elif name == 'sign':
            d.append(v == z3.If(a[0] > 0, z3.RealVal(1), z3.If(a[0] < 0, z3.RealVal(-1), z3.RealVal(0))))
        elif name in ('ifeq', 'iflt', 'ifle'):
            d.append(v == z3.If(a[0] == 0 if name == 'ifeq' else a[0] < 0 if name == 'iflt' else a[0] <= 0, a[1], a[2]))
        elif name in ('sin', 'cos'):
            self._pair(k, 'sin', 'cos', k.args[1:])
            if X.free_vars(k) <= {'pi'}:        # a constant: enclosed by rational numbers
                w = N.evalf(k, {})
                lo = Fraction(int(N.mp.floor(w * 10 ** 12)), 10 ** 12)
                d += [v >= self.num(lo), v <= self.num(lo + Fraction(1, 10 ** 12))]
        elif name in ('sn', 'cn', 'dn'):
            self._jac(k.args[1], k.args[2])
        elif name == 'K':
            d += [v > 0]
            pi = self.var('pi')
            d += [z3.Implies(z3.And(a[0] >= 0, a[0] < 1), 2 * v >= pi)]
        elif name == 'E':
            d += [v > 0]
            pi = self.var('pi')
            d += [z3.Implies(z3.And(a[0] >= 0, a[0] <= 1), z3.And(2 * v <= pi, v >= 1))]
        elif name in ('arcsin', 'arctan'):
            pi = self.var('pi')
            d += [2 * v <= pi, 2 * v >= -pi, z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0), z3.Implies(a[0] == 0, v == 0)]
            if name == 'arcsin':
                d += [z3.Implies(a[0] < 1, 2 * v < pi), z3.Implies(a[0] > -1, 2 * v > -pi)]
                self._mono(name, k.args[1], v, 1)
        elif name == 'arccos':
            pi = self.var('pi')
            d += [v >= 0, v <= pi, z3.Implies(a[0] > 0, 2 * v < pi), z3.Implies(a[0] < 0, 2 * v > pi), z3.Implies(a[0] == 0, 2 * v == pi),
                  z3.Implies(a[0] < 1, v > 0), z3.Implies(a[0] > -1, v < pi)]
            self._mono(name, k.args[1], v, -1)
        elif name == 'floor':
            d += [v <= a[0], a[0] < v + 1]
            self._quadrant(k)
        elif name == 'mod':
            if k.args[2].kind == 'c' and k.args[1].kind == 'f' and k.args[1].args[0] == 'floor' and k.args[2].args == 2:
                d.append(z3.Or(v == 0, v == 1))
                self._parity(k, v)
            else:
                d += [z3.Implies(a[1] > 0, z3.And(v >= 0, v < a[1]))]
        elif name == 'F' or name == 'Einc':
            d += [z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0), z3.Implies(a[0] == 0, v == 0)]
        elif name == 'exp':
            d.append(v > 0)
        elif name in ('RF', 'RD', 'RJ'):
            pass
        return v

    def _mono(self, name, argnode, v, s):
        key = ('mono', name)
        prev = self.memo.setdefault(key, [])
        x = self.memo[argnode.id]
        for y, w in prev:
            if s > 0:
                self.defs += [z3.Implies(x < y, v < w), z3.Implies(x > y, v > w), z3.Implies(x == y, v == w)]
            else:
                self.defs += [z3.Implies(x < y, v > w), z3.Implies(x > y, v < w), z3.Implies(x == y, v == w)]
        prev.append((x, v))

    def _atom(self, n):
        """z3 variable of an application node (creating it if the node was not met yet)"""
        t = self.term(n)
        return t

    def _pair(self, k, sname, cname, args):
        key = ('pair', args[0].id)
        if key in self._pairs:
            return
        self._pairs.add(key)
        s, c = X._mk('f', (sname,) + tuple(args)), X._mk('f', (cname,) + tuple(args))
        for w in (s, c):
            if w is not k and w.id not in self.memo:
                self.memo[w.id] = self.fresh(w.args[0])
                self.atoms[w] = self.memo[w.id]
        self.memo[k.id] = self.atoms[k]
        zs, zc = self.memo[s.id], self.memo[c.id]
        self.defs.append(zs * zs + zc * zc == 1)

    def _jac(self, u, m):
        key = ('jac', u.id, m.id)
        if key in self._pairs:
            return
        self._pairs.add(key)
        zs = []
        for nm in ('sn', 'cn', 'dn'):
            w = X._mk('f', (nm, u, m))
            if w not in self.atoms:
                self.memo[w.id] = self.fresh(nm)
                self.atoms[w] = self.memo[w.id]
            zs.append(self.atoms[w])
            self.memo[w.id] = self.atoms[w]
        s, c, dn = zs
        self.defs += [s * s + c * c == 1, dn * dn == 1 - self.memo[m.id] * s * s, dn > 0]

    def _angle(self, fl):
        """phi if fl = floor(2*phi/pi)"""
        arg = fl.args[1]
        phi = X.scale(Fraction(1, 2), X.mul(arg, X.pi()))
        return phi

    def _quadrant(self, k):
        pass

    def _parity(self, k, v):
        phi = self._angle(k.args[1])
        s, c = X.fn('sin', phi), X.fn('cos', phi)
        zs, zc = self.term(s), self.term(c)
        self.defs += [z3.Implies(v == 0, zs * zc >= 0), z3.Implies(v == 1, zs * zc <= 0)]

    def cond(self, c):
        if c.op == 'const':
            return z3.BoolVal(c.args[0])
        if c.op == 'not':
            return z3.Not(self.cond(c.args[0]))
        if c.op == 'and':
            return z3.And(*[self.cond(x) for x in c.args])
        if c.op == 'or':
            return z3.Or(*[self.cond(x) for x in c.args])
        t = self.term(c.args[0])
        return t < 0 if c.op == 'lt' else t <= 0 if c.op == 'le' else t == 0


def check(assertions, timeout=2.0, tactic=None):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set('timeout', max(1, int(timeout * 1000)))
    s.add(*assertions)
    t0 = time.time()
    done = threading.Event()

    def stop():
        if not done.is_set():
            z3.main_ctx().interrupt()
    tm = threading.Timer(timeout * 1.5 + 0.5, stop)
    tm.daemon = True
    tm.start()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    done.set()
    tm.cancel()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    STATS[r if r in ('sat', 'unsat') else 'unknown'] += 1
    if r == 'sat':
        return r, s.model()
    return (r if r == 'unsat' else 'unknown'), None


def value(model, zvar):
    """Fraction value of a variable in a model (algebraic numbers are approximated), or None"""
    v = model.eval(zvar, model_completion=True)
    try:
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            w = v.approx(25)
            return Fraction(w.numerator_as_long(), w.denominator_as_long())
    except z3.Z3Exception:
        pass
    return None
