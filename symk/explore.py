"""Path exploration: the executed code is run again for every feasible combination of branch outcomes."""
import itertools
import random
import time
from fractions import Fraction
import z3
from . import expr as X
from . import sym as S
from . import smt
from . import numeric as N
from .sym import Sym, SymComplex, Unsupported, lift


_BRAK = {}


_LIGHT = {}


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class Path:
    def __init__(self):
        self.pc = []            # conditions assumed, in order
        self.decisions = []
        self.sides = []         # (kind, condition, number of pc entries in force)
        self.outcome = None     # ('return', v) | ('raise', exc) | ('unsupported', msg) | ('limit', msg)
        self.obligations = []   # (name, condition) added by the harness while the path was running
        self.rootlog = []
        self.rootdefs = []      # equations of bracketed roots (kept out of the path condition: only used on demand)
        self.notes = []
        self.samples = []

    def describe(self):
        return ' & '.join(map(repr, self.pc[-12:]))


class Explorer:
    def __init__(self, facts=(), sampler=(), timeout=1.5, max_paths=400, budget=300, max_decisions=400):
        self.facts = list(facts)        # conditions assumed on every path (the domain and the lemmas)
        self.sampler = list(sampler)    # list of dict name -> value
        self.timeout = timeout
        self.max_paths = max_paths
        self.budget = budget
        self.max_decisions = max_decisions
        self.canon = None
        self.merge = False
        self.stats = {'paths': 0, 'branches': 0, 'infeasible': 0, 'witnessed': 0, 'assumed_feasible': 0}
        self.known_polys = []           # (coefs nodes increasing, roots list) registered by the harness
        self.path = None
        self.prefix = []
        self.max_model_samples = 60
        self._reserve = None
        self.signless = False           # leave signs open instead of asking the solver
        self._spent, self.max_spent = 0.0, 20.0
        self.shift_vars = ()            # input variables to move along with a root when completing a model
        self.extra_defs = {}            # numeric definitions of variables the harness introduced

    # ------------------------------------------------------------ exploration
    def run(self, fn):
        """execute fn() on all paths; returns the list of paths"""
        paths = []
        stack = [[]]
        t0 = time.time()
        self.complete = True
        while stack:
            if len(paths) >= self.max_paths or time.time() - t0 > self.budget:
                self.complete = False
                break
            prefix = stack.pop()
            p = self._one(fn, prefix)
            if p is None:
                self.stats['infeasible'] += 1
            else:
                paths.append(p)
                self.stats['paths'] += 1
            ptr = p if p is not None else self._dead
            # schedule the alternatives found beyond the prefix
            for i in range(len(ptr.decisions) - 1, len(prefix) - 1, -1):
                for alt in ptr.decisions[i][1]:
                    stack.append([d[0] for d in ptr.decisions[:i]] + [alt])
        return paths

    def _one(self, fn, prefix):
        self.prefix = prefix
        p = self.path = Path()
        self._cache = {}
        self._signs = {}
        self._trans = smt.Trans()
        self._zfacts = None
        self.vardefs = {}
        self._roots = {}
        self._braks = {}
        self._choices = []
        self._live = [dict(e) for e in self.sampler]
        self._memos = [dict() for _ in self._live]
        self._rstate = {}
        X.CUT.clear()
        old = S.EXPLORER[0]
        S.EXPLORER[0] = self
        self._dead = p
        try:
            for f in self.facts:
                self._note(f, True)
            self._refilter(self.facts)
            try:
                v = fn()
                p.outcome = ('return', v)
            except Infeasible:
                return None
            except (Unsupported, PathLimit) as e:
                p.outcome = ('unsupported', '%s' % e)
            except RecursionError as e:
                p.outcome = ('unsupported', 'recursion')
            except Exception as e:
                p.outcome = ('raise', e)
                if not self._live:
                    self.find(X.TRUE, 4)
            p.samples = self._live
            p.vardefs = self.vardefs
            p.cut = dict(X.CUT)
            return p
        finally:
            S.EXPLORER[0] = old
            self.path_cache = self._cache
            X.CUT.clear()

    def _note(self, c, val):
        self._cache[c.key] = val
        self._cache[X.cnot(c).key] = not val
        if c.op == 'and' and val:
            for x in c.args:
                self._note(x, True)
        if c.op == 'or' and not val:
            for x in c.args:
                self._note(x, False)
        if c.op == 'lt' and val:
            self._cache[('le', c.args[0])] = True
            self._cache[X.cmp('eq', c.args[0]).key] = False
            self._cache[('lt', X.neg(c.args[0]))] = False
            self._cache[('le', X.neg(c.args[0]))] = False
        if c.op == 'le' and not val:
            self._cache[X.cmp('eq', c.args[0]).key] = False
            self._cache[('lt', c.args[0])] = False
        if c.op == 'eq' and val:
            for e in (c.args[0], X.neg(c.args[0])):
                self._cache[('lt', e)] = False
                self._cache[('le', e)] = True
                self._cache[X.cmp('lt', e).key] = False
                self._cache[X.cmp('le', e).key] = True

    def _refilter(self, conds):
        live, memos = [], []
        for e, m in zip(self._live, self._memos):
            try:
                if all(N.holds(c, e, m) for c in conds):
                    live.append(e)
                    memos.append(m)
            except N.Undefined:
                continue
        self._live, self._memos = live, memos

    def assume(self, c):
        """add a condition to the current path without branching"""
        if isinstance(c, S.SymBool):
            c = c.c
        if c is True or c == X.TRUE:
            return
        if c is False or c == X.FALSE:
            raise Infeasible()
        self._note(c, True)
        self.path.pc.append(c)
        self._refilter([c])

    def _zpc(self):
        t = self._trans
        out = [t.cond(c) for c in self.facts] + [t.cond(c) for c in self.path.pc]
        return out

    def is_light(self, c):
        """a condition over plain polynomials of moderate size"""
        r = _LIGHT.get(c.key)
        if r is None:
            r = True
            ns = X.cond_nodes(c)
            w = X.walk(list(ns))
            if len(w) > 60:
                r = False
            else:
                for k in w:
                    if k.kind == 'f' or (k.kind == 'p' and any(not isinstance(e, int) and getattr(e, 'denominator', 1) != 1 for e in k.args[1:2])):
                        r = False
                        break
            _LIGHT[c.key] = r
        return r

    def _lpc(self):
        return [self._trans.cond(c) for c in self.facts + self.path.pc if self.is_light(c)]

    def light_query(self, c):
        """decide c against the plain part of the path condition: 'unsat' is conclusive"""
        if not self.is_light(c):
            return 'unknown', None
        return smt.check(self._lpc() + [self._trans.cond(c)], min(1.0, self.timeout))

    def feasible(self, c):
        """is c satisfiable together with the path condition"""
        r, m = self.light_query(c)
        if r == 'unsat':
            return r
        if r == 'sat':
            n = len(self._live)
            self._witness(c, m)
            if len(self._live) > n:
                return r
        zs = self._zpc() + [self._trans.cond(c)] + self._trans.defs
        r, m = smt.check(zs, self.timeout)
        if r == 'sat':
            self._witness(c, m)
        return r

    def _witness(self, c, m):
        """turn a model of the path condition into a sample point when it stands up to exact evaluation"""
        if self.stats.get('model_samples', 0) >= self.max_model_samples:
            return
        base = {}
        for name, z in self._trans.vars.items():
            if name == 'pi' or name in self.vardefs or name in self.extra_defs:
                continue
            v = smt.value(m, z)
            if v is None:
                return
            base[name] = v
        tries = [base]
        for name in self.vardefs:       # keep the distance to a root when the root itself moves
            if name in self._trans.vars and self.shift_vars:
                z = smt.value(m, self._trans.vars[name])
                try:
                    t = N.evalf(X.var(name), dict(base, **self.vardefs))
                except (N.Undefined, KeyError):
                    continue
                for q in self.shift_vars:
                    if q in base and z is not None:
                        tries.append(dict(base, **{q: Fraction(str(N.mp.nstr(base[q] - z + t, 25)))}))
        for b in tries:
            for k in self.sampler[0] if self.sampler else ():
                if k not in b and not callable(self.sampler[0][k]):
                    b[k] = self.sampler[0][k]
            env = dict(self.extra_defs, **b)
            env.update(self.vardefs)
            memo = {}
            try:
                if all(N.holds(f, env, memo) for f in self.facts + self.path.pc + [c]):
                    self.sampler.append(dict(self.extra_defs, **b))
                    e2 = dict(env)
                    self._live.append(e2)
                    self._memos.append({})
                    self.stats['model_samples'] = self.stats.get('model_samples', 0) + 1
                    return
            except N.Undefined:
                continue

    def _variants(self):
        """further points of the domain: the samples with some of their inputs changed.  They are only looked at where
        the solver leaves a branch or an obligation open, to find an input that can be replayed"""
        if self._reserve is None:
            t0 = time.time()
            rnd = random.Random(len(self.sampler))
            self._reserve = []
            base = self.sampler[:40]
            plain = [[k for k, v in e.items() if not callable(v)] for e in base]
            for _ in range(2000 if base else 0):
                if len(self._reserve) >= 200 or time.time() - t0 > 4:
                    break
                i = rnd.randrange(len(base))
                if not plain[i]:
                    continue
                env = dict(base[i])
                for k in rnd.sample(plain[i], min(len(plain[i]), rnd.choice((1, 1, 2, 3, 5)))):
                    v, how = env[k], rnd.randrange(9)
                    if how == 0:
                        v = base[rnd.randrange(len(base))].get(k, v)
                        if callable(v):
                            continue
                    elif how == 1:
                        v = -v
                    elif how == 8:
                        v = env[rnd.choice(plain[i])]
                    elif how < 4:
                        o = base[rnd.randrange(len(base))].get(k, v)
                        if callable(o):
                            continue
                        v = v + (o - v) * Fraction(rnd.randrange(1, 100), 100)
                    elif how == 2:
                        v = v * Fraction(rnd.randrange(1, 1000), 10 ** rnd.choice((4, 5, 6)))
                    else:
                        v = v * Fraction(rnd.randrange(1, 2000), 1000)
                    env[k] = Fraction(v) if isinstance(v, (int, Fraction)) else v
                try:
                    if all(N.holds(c, dict(env), None) for c in self.facts):
                        self._reserve.append(env)
                except (N.Undefined, ZeroDivisionError, TypeError):
                    continue
            self._spent += time.time() - t0
        return self._reserve

    def variants(self, limit=1.0):
        """the variants that satisfy the current path condition: pairs (point, memo)"""
        t0 = time.time()
        for i, e in enumerate(self._variants()):
            if self._spent > self.max_spent or time.time() - t0 > limit:
                break
            t1 = time.time()
            env, memo, k = self._rstate.get(i) or (dict(e), {}, 0)
            if k is None:
                continue
            env.update({n: v for n, v in self.vardefs.items() if n not in env})
            try:
                pc = self.path.pc
                while k < len(pc) and N.holds(pc[k], env, memo):
                    k += 1
                if k < len(pc):
                    k = None
            except (N.Undefined, ZeroDivisionError, TypeError):
                k = None
            self._rstate[i] = env, memo, k
            self._spent += time.time() - t1
            if k is not None:
                yield i, env, memo

    def find(self, c, want=1):
        """add a variant that satisfies the path condition and c to the samples"""
        hits = []
        for i, env, memo in self.variants():
            try:
                if N.holds(c, env, memo):
                    hits.append((i, env))
                    if len(hits) == want:
                        break
            except (N.Undefined, ZeroDivisionError):
                continue
        for i, env in hits:
            if self.stats.get('variants', 0) < 60:
                self.stats['variants'] = self.stats.get('variants', 0) + 1
                self.sampler.append(dict(self._reserve[i]))
                self._live.append(dict(env))
                self._memos.append({})
        return bool(hits)

    def implied(self, c, timeout=None):
        if c.op == 'const':
            return c.args[0]
        if c.key in self._cache:
            return self._cache[c.key]
        for e, m in zip(self._live, self._memos):
            try:
                if not N.holds(c, e, m):
                    return False
            except N.Undefined:
                continue
        r, m = self.light_query(X.cnot(c))
        if r != 'unsat':
            zs = self._zpc() + [self._trans.cond(X.cnot(c))] + self._trans.defs
            r, m = smt.check(zs, timeout or self.timeout)
        if r == 'unsat':
            self._note(c, True)
            return True
        return False

    def sign_of(self, n):
        if self.signless and not self.is_light(X.cmp('le', n)):
            return None
        k = ('s', n.id, len(self.path.pc))
        if k in self._signs:
            return self._signs[k]
        r = None
        vals = set()
        for e, m in zip(self._live, self._memos):
            try:
                v = N.evalf(n, e, m)
            except N.Undefined:
                continue
            if abs(v) > N.TOL:
                vals.add(v > 0)
        if len(vals) == 1 or not vals:
            for pos in ([vals.copy().pop()] if vals else [True, False]):
                c = X.cmp('le', X.neg(n) if pos else n)
                if self.implied(c):
                    r = '+' if pos else '-'
                    break
        self._signs[k] = r
        return r

    def decide(self, c):
        if c.key in self._cache:
            return self._cache[c.key]
        p = self.path
        i = len(p.decisions)
        self.stats['branches'] += 1
        if i < len(self.prefix):
            val = self.prefix[i]
            p.decisions.append((val, []))
        else:
            if i >= self.max_decisions:
                raise PathLimit('more than %d branches on one path' % self.max_decisions)
            can = {True: None, False: None}
            for e, m in zip(self._live, self._memos):
                try:
                    can[N.holds(c, e, m)] = 'witness'
                except N.Undefined:
                    pass
                if can[True] and can[False]:
                    break
            for b in (True, False):
                if can[b] is None:
                    n = len(self._live)
                    r = self.feasible(c if b else X.cnot(c))
                    if r != 'unsat' and len(self._live) == n:
                        self.find(c if b else X.cnot(c))
                    if r == 'sat':
                        can[b] = 'sat'
                    elif r == 'unknown':
                        can[b] = 'assumed'
                else:
                    self.stats['witnessed'] += 1
            if not can[True] and not can[False]:
                raise Infeasible()
            if can[True] and can[False]:
                # follow the better supported side first
                val = bool(can[True] == 'witness' or can[False] != 'witness')
                p.decisions.append((val, [not val]))
                if 'assumed' in can.values():
                    self.stats['assumed_feasible'] += 1
            else:
                val = bool(can[True])
                p.decisions.append((val, []))
        a = c if val else X.cnot(c)
        self._note(a, True)
        p.pc.append(a)
        self._refilter([a])
        return val

    def choose(self, k, label=''):
        """nondeterministic choice among range(k)"""
        p = self.path
        i = len(p.decisions)
        if i < len(self.prefix):
            val = self.prefix[i]
            p.decisions.append((val, []))
        else:
            val = 0
            p.decisions.append((0, list(range(k - 1, 0, -1))))
        p.notes.append('%s=%d' % (label, val))
        return val

    def side(self, kind, c):
        if self._cache.get(c.key) is True:
            return
        self.path.sides.append((kind, c, len(self.path.pc)))

    # ------------------------------------------------------------ stubs
    def _same(self, a, b):
        """are two coefficient lists equal on this path (decided by the solver, guided by samples)"""
        if len(a) != len(b):
            return False
        if all(x is y for x, y in zip(a, b)):
            return True
        for e, m in zip(self._live, self._memos):
            try:
                for x, y in zip(a, b):
                    u, v = N.evalf(x, e, m), N.evalf(y, e, m)
                    if abs(u - v) > N.mp.mpf(10) ** -12 * (1 + abs(u)):
                        return False
            except N.Undefined:
                continue
        for x, y in zip(a, b):
            if x is y:
                continue
            if not self.equal(x, y):
                return False
        return True

    def equal(self, x, y):
        from . import norm
        d = X.sub(x, y)
        if d.kind == 'c':
            return d.args == 0
        try:
            r = norm.is_zero(d, self)
            if r is not None:
                return r
        except norm.Failed:
            pass
        return self.implied(X.cmp('eq', d), timeout=4)

    def roots(self, coefs):
        cs = [lift(c) for c in coefs]
        while cs and cs[-1].kind == 'c' and cs[-1].args == 0:
            cs.pop()
        # numpy removes vanishing leading coefficients only when they are exactly zero
        while len(cs) > 1 and cs[-1].kind != 'c' and S.decide(X.cmp('eq', cs[-1])):
            cs.pop()
        deg = len(cs) - 1
        if deg <= 0:
            return S.np.array([], dtype=object)
        lead = cs[-1]
        mon = [X.div(c, lead) for c in cs[:-1]]
        if deg == 1:
            return self._pack([Sym(X.neg(mon[0]))])
        for kc, roots in self.known_polys:
            if len(kc) == deg + 1:
                kl = kc[-1]
                if self._same(mon, [X.div(c, kl) for c in kc[:-1]]):
                    self.path.rootlog.append(('known', cs, roots))
                    return self._pack(list(roots))
        for kmon, roots in self._roots.values():
            if self._same(mon, kmon):
                return self._pack(list(roots))
        k = len(self._roots)
        if deg == 2:
            roots = self._quad(k, mon)
        elif deg == 4:
            roots = self._quartic(k, mon)
        else:
            raise Unsupported('roots of a polynomial of degree %d' % deg)
        self._roots[k] = (mon, roots)
        self.path.rootlog.append(('fresh', cs, roots))
        return self._pack(list(roots))

    def _pack(self, rs):
        out = S.np.empty(len(rs), dtype=object)
        out[:] = rs
        return out

    def _numroots(self, mon):
        def f(env):
            cs = [1] + [N.evalf(c, env) for c in reversed(mon)]
            rs = N.mp.polyroots(cs, maxsteps=200, extraprec=200)
            re = sorted([N.mp.re(r) for r in rs if abs(N.mp.im(r)) < 1e-12])
            im = [r for r in rs if abs(N.mp.im(r)) >= 1e-12]
            return re, im
        return f

    def _quad(self, k, mon):
        """x^2 + mon1 x + mon0: two real roots, increasing (the code only uses real ones); complex -> Unsupported"""
        disc = X.sub(X.power(mon[1], 2), X.scale(4, mon[0]))
        if S.decide(X.cmp('lt', disc)):
            raise Unsupported('complex roots of a quadratic')
        s = X.fn('sqrt', disc)
        h = Fraction(1, 2)
        lo = X.scale(h, X.sub(X.neg(mon[1]), s))
        hi = X.scale(h, X.add(X.neg(mon[1]), s))
        return [Sym(lo), Sym(hi)]

    def _quartic(self, k, mon):
        cfg = self.choose(3, 'roots%d' % k)
        f = self._numroots(mon)
        nm = 'rt%d_' % k
        if cfg == 0:
            vs = [X.var(nm + str(i)) for i in range(4)]
            for i in range(4):
                self._def(nm + str(i), lambda env, i=i: (f(env)[0][i] if len(f(env)[0]) == 4 else None))
            els = vs
            for i in range(3):
                self.assume(X.le(vs[i], vs[i + 1]))
            out = [Sym(v) for v in vs]
            e1 = X.add(*vs)
            e2 = X.add(*[X.mul(a, b) for a, b in itertools.combinations(vs, 2)])
            e3 = X.add(*[X.mul(a, b, c) for a, b, c in itertools.combinations(vs, 3)])
            e4 = X.mul(*vs)
        elif cfg == 1:
            a, b, re, im = (X.var(nm + s) for s in ('a', 'b', 're', 'im'))
            self._def(nm + 'a', lambda env: f(env)[0][0] if len(f(env)[0]) == 2 else None)
            self._def(nm + 'b', lambda env: f(env)[0][1] if len(f(env)[0]) == 2 else None)
            self._def(nm + 're', lambda env: N.mp.re(f(env)[1][0]) if len(f(env)[1]) == 2 else None)
            self._def(nm + 'im', lambda env: abs(N.mp.im(f(env)[1][0])) if len(f(env)[1]) == 2 else None)
            self.assume(X.le(a, b))
            self.assume(X.lt(X.const(0), im))
            q = X.add(X.power(re, 2), X.power(im, 2))
            e1 = X.add(a, b, X.scale(2, re))
            e2 = X.add(X.mul(a, b), X.mul(X.add(a, b), X.scale(2, re)), q)
            e3 = X.add(X.mul(a, b, X.scale(2, re)), X.mul(X.add(a, b), q))
            e4 = X.mul(a, b, q)
            # numpy sorts by real part, then by imaginary part
            pair = [SymComplex(Sym(re), Sym(X.neg(im))), SymComplex(Sym(re), Sym(im))]
            A, B = Sym(a), Sym(b)
            if S.decide(X.lt(re, a)):
                out = pair + [A, B]
            elif S.decide(X.lt(re, b)):
                out = [A] + pair + [B]
            else:
                out = [A, B] + pair
        else:
            re, im, re2, im2 = (X.var(nm + s) for s in ('re', 'im', 're2', 'im2'))
            for s in ('re', 'im', 're2', 'im2'):
                self._def(nm + s, lambda env: None)
            self.assume(X.lt(X.const(0), im))
            self.assume(X.lt(X.const(0), im2))
            self.assume(X.le(re, re2))
            q, q2 = X.add(X.power(re, 2), X.power(im, 2)), X.add(X.power(re2, 2), X.power(im2, 2))
            e1 = X.scale(2, X.add(re, re2))
            e2 = X.add(q, q2, X.scale(4, X.mul(re, re2)))
            e3 = X.add(X.scale(2, X.mul(re, q2)), X.scale(2, X.mul(re2, q)))
            e4 = X.mul(q, q2)
            out = [SymComplex(Sym(re), Sym(X.neg(im))), SymComplex(Sym(re), Sym(im)),
                   SymComplex(Sym(re2), Sym(X.neg(im2))), SymComplex(Sym(re2), Sym(im2))]
        for lhs, rhs in ((mon[3], X.neg(e1)), (mon[2], e2), (mon[1], X.neg(e3)), (mon[0], e4)):
            self.assume(X.eq(lhs, rhs))
        return out

    extremes = None     # {variable: ('min' or 'max', values)} to represent extremes of many values by variables

    fixed_extremes = None       # a number to replace all of them by, where they are not of interest

    def extreme(self, els, kind):
        """a number not above (below) any of the values; that is assumed for the extreme one of each kind of value"""
        if self.fixed_extremes is not None:
            return X.const(-self.fixed_extremes if kind == 'min' else self.fixed_extremes)
        pick = min if kind == 'min' else max
        name = '%s%d' % (kind, len(self.extremes))
        v = X.var(name)
        groups = {}
        for n in els:
            groups.setdefault(frozenset(X.free_vars(n)), []).append(n)
        best, some = [], []
        for g in groups.values():
            at = []
            for env, memo in list(zip(self._live, self._memos))[:1 if len(g) < 30 else 2]:
                vals = []
                for n in g:
                    try:
                        vals.append((N.evalf(n, env, memo), n))
                    except N.Undefined:
                        pass
                if vals:
                    at.append(pick(vals, key=lambda t: t[0])[1])
            best += at[:1]
            some += g if len(g) < 30 else at

        def value(env, memo=None):      # for samples
            out = []
            for n in some:
                try:
                    out.append(N.evalf(n, env, memo))
                except N.Undefined:
                    pass
            return pick(out)
        self._def(name, value)
        self.extremes[v] = (kind, els)
        for n in best:
            self.assume(X.le(v, n) if kind == 'min' else X.le(n, v))
        return v

    def _def(self, name, f):
        self.vardefs[name] = f
        for e, m in zip(self._live, self._memos):
            e[name] = f

    def bracketed_root(self, f, lo, hi):
        t = X.var('t!')
        e = lift(f(Sym(t)))
        key = (e, lo.n, hi.n)
        if key in self._braks:
            return self._braks[key]
        for (e2, l2, h2), r in self._braks.items():
            if l2 is lo.n and h2 is hi.n and self._same([e], [e2]):
                self._braks[key] = r
                return r
        k = len(self._braks)
        name = 'root%d' % k
        r = Sym(X.var(name))
        flo, fhi = X.substitute([e], {t: lo.n})[0], X.substitute([e], {t: hi.n})[0]
        # the library refuses a bracket without a sign change; that it never does is the business of C04
        self.path.rootlog.append(('bracket', e, lo.n, hi.n, r.n, flo, fhi, len(self.path.pc)))

        fv = sorted(X.free_vars(e, lo.n, hi.n) - {'t!', 'pi'})

        def num(env):
            try:
                ck = (e.id, lo.n.id, hi.n.id) + tuple(str(N.evalf(X.var(q), env)) for q in fv)
            except N.Undefined:
                return None
            if ck not in _BRAK:
                _BRAK[ck] = num1(env)
            return _BRAK[ck]

        def num1(env):
            a, b = N.evalf(lo.n, env), N.evalf(hi.n, env)
            g = lambda v: N.evalf(e, dict(env, **{'t!': v}))
            ga, gb = g(a), g(b)
            if ga == 0:
                return a
            if gb == 0:
                return b
            if (ga > 0) == (gb > 0):
                return None
            for _ in range(110):
                c = (a + b) / 2
                gc = g(c)
                if (gc > 0) == (ga > 0):
                    a = c
                else:
                    b = c
            return (a + b) / 2
        self._braks[key] = r
        self._def(name, num)
        l, h = (lo, hi)
        self.path.rootdefs.append(X.cmp('eq', X.substitute([e], {t: r.n})[0]))
        self.assume(X.cor(X.cand(X.le(l.n, r.n), X.le(r.n, h.n)), X.cand(X.le(h.n, r.n), X.le(r.n, l.n))))
        return r
