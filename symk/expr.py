"""Hash-consed symbolic expressions and the Sym/SymBool values the executed code sees.

A node is one of
  Const(Fraction) | Var(name) | Add(const, {term: coeff}) | Mul({base: int exponent}) | Fn(name, args)
Canonical form: Add and Mul are flattened, coefficients live in Add only, equal terms are merged.
Nothing is expanded, so a node mirrors the computation the code performs.
"""
from fractions import Fraction
import math, sys
sys.setrecursionlimit(100000)

_table = {}
_count = [0]
CUT = {}          # node -> replacement node (assume/guarantee cut points), see cuts.py


class Unsupported(Exception):
    """The executed code did something the encoding cannot follow."""


class Node:
    __slots__ = ('kind', 'args', 'id', 'memo', '__weakref__')

    def __repr__(self):
        return show(self)


def _mk(kind, args):
    key = (kind, args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.kind, n.args, n.memo = kind, args, None
        _count[0] += 1
        n.id = _count[0]
        _table[key] = n
    if CUT:
        r = CUT.get(n)
        if r is not None:
            return r
    return n


def reset():
    _table.clear()
    _count[0] = 0
    CUT.clear()


def const(v):
    return _mk('c', Fraction(v))


def var(name):
    return _mk('v', name)


def _split(n):
    """node -> (coefficient, monic node)"""
    if n.kind == 'a' and n.args[0] == 0 and len(n.args[1]) == 1:
        (t, c), = n.args[1]
        return c, t
    return Fraction(1), n


def add(*ns):
    c0 = Fraction(0)
    d = {}
    for n in ns:
        if n.kind == 'c':
            c0 += n.args
        elif n.kind == 'a':
            c0 += n.args[0]
            for t, c in n.args[1]:
                d[t] = d.get(t, 0) + c
        else:
            d[n] = d.get(n, 0) + 1
    return _mkadd(c0, d)


def _mkadd(c0, d):
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda tc: tc[0].id))
    if not items:
        return const(c0)
    if c0 == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk('a', (c0, items))


def scale(k, n):
    k = Fraction(k)
    if k == 0:
        return const(0)
    if k == 1:
        return n
    if n.kind == 'c':
        return const(k * n.args)
    if n.kind == 'a':
        return _mkadd(k * n.args[0], {t: k * c for t, c in n.args[1]})
    return _mk('a', (Fraction(0), ((n, k),)))


def neg(n):
    return scale(-1, n)


def sub(a, b):
    return add(a, neg(b))


def mul(*ns):
    return _powprod([(n, 1) for n in ns])


def power(n, k):
    return _powprod([(n, k)])


def _powprod(pairs):
    coef = Fraction(1)
    d = {}
    todo = list(pairs)
    while todo:
        n, k = todo.pop()
        if k == 0:
            continue
        if n.kind == 'c':
            if n.args == 0 and k < 0:
                raise ZeroDivisionError('division by zero')
            coef *= n.args ** k
        elif n.kind == 'm':
            todo.extend((b, e * k) for b, e in n.args)
        elif n.kind == 'a':
            if n.args[0] == 0 and len(n.args[1]) == 1:
                (t, c), = n.args[1]
                coef *= c ** k
                todo.append((t, k))
            else:
                # make the leading coefficient 1 so that proportional sums share a base
                lead = n.args[1][0][1]
                if lead != 1:
                    coef *= lead ** k
                    n = scale(1 / lead, n)
                    if n.kind != 'a':
                        todo.append((n, k))
                        continue
                d[n] = d.get(n, 0) + k
        else:
            d[n] = d.get(n, 0) + k
    again = []
    for b in list(d):
        e = d[b]
        if e == 0:
            del d[b]
        elif b.kind == 'f' and b.args[0] == 'sqrt' and abs(e) >= 2:
            q = int(e / 2)
            rem = e - 2 * q
            del d[b]
            if rem:
                d[b] = rem
            again.append((b.args[1], q))
    if again:
        again.extend(d.items())
        return scale(coef, _powprod(again))
    if coef == 0 or not d:
        return const(coef)
    items = tuple(sorted(d.items(), key=lambda be: be[0].id))
    if len(items) == 1 and items[0][1] == 1:
        return scale(coef, items[0][0])
    return scale(coef, _mk('m', items))


def div(a, b):
    return _powprod([(a, 1), (b, -1)])


def _isqrt(v):
    if v < 0:
        return None
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


PI = None


def pi():
    return var('pi')


def fn(name, *args):
    """Function application with the rewrites that are valid for all real arguments in the domain."""
    a = args[0]
    if name == 'sqrt':
        if a.kind == 'c':
            r = _isqrt(a.args)
            if r is not None:
                return const(r)
            if a.args > 0 and (a.args.denominator != 1):
                # sqrt(p/q) = sqrt(p*q)/q
                return scale(Fraction(1, a.args.denominator),
                             fn('sqrt', const(a.args.numerator * a.args.denominator)))
            if a.args > 0:
                v, k = int(a.args), 1
                f = 2
                while f * f <= v and f < 2000:
                    while v % (f * f) == 0:
                        v //= f * f
                        k *= f
                    f += 1
                if k > 1:
                    return scale(k, fn('sqrt', const(v)))
        c, m = _split(a)
        if c != 1 and c > 0 and a.kind != 'c':
            r = _isqrt(c)
            if r is not None:
                return scale(r, fn('sqrt', m))
    elif name in ('sin', 'cos'):
        r = _trig(name, a)
        if r is not None:
            return r
    elif name == 'tan':
        return div(fn('sin', a), fn('cos', a))
    elif name in ('arcsin', 'arccos', 'arctan'):
        if a.kind == 'c':
            v = a.args
            p = pi()
            if name == 'arcsin' and v in (0, 1, -1):
                return scale(v / 2, p)
            if name == 'arccos' and v in (0, 1, -1):
                return scale({0: Fraction(1, 2), 1: Fraction(0), -1: Fraction(1)}[v], p)
            if name == 'arctan' and v == 0:
                return const(0)
        if name != 'arccos':
            c, m = _split(a)
            if c < 0:
                return neg(fn(name, neg(a)))
    elif name == 'abs':
        if a.kind == 'c':
            return const(abs(a.args))
        if a.kind == 'f' and a.args[0] in ('sqrt', 'abs', 'K', 'E', 'exp', 'dn'):
            return a
        c, m = _split(a)
        if c != 1:
            return scale(abs(c), fn('abs', m))
    elif name == 'sign':
        if a.kind == 'c':
            return const((a.args > 0) - (a.args < 0))
        if a.kind == 'f' and a.args[0] in ('K', 'E', 'exp', 'dn'):
            return const(1)
    elif name == 'floor':
        if a.kind == 'c':
            return const(math.floor(a.args))
        if a.kind == 'f' and a.args[0] == 'floor':
            return a
        a = _turns(a)
        if a.kind == 'a' and a.args[0] and a.args[0].denominator == 1:
            return add(const(a.args[0]), fn('floor', add(a, const(-a.args[0]))))
    elif name in ('ifeq', 'iflt', 'ifle'):
        if args[1] is args[2]:
            return args[1]
        if a.kind == 'c':
            return args[1] if (a.args == 0 if name == 'ifeq' else a.args < 0 if name == 'iflt' else a.args <= 0) else args[2]
    elif name == 'mod':
        if a.kind == 'c' and args[1].kind == 'c':
            return const(a.args - args[1].args * math.floor(a.args / args[1].args))
        if a.kind == 'a' and a.args[0] and args[1].kind == 'c' and (a.args[0] / args[1].args).denominator == 1:
            return fn('mod', add(a, const(-a.args[0])), args[1])
        if args[1].kind == 'c' and args[1].args == 2:
            k, rest = offset(a)
            c, core = _split(rest)
            if k.denominator == 1 and k % 2 and abs(c) == 1 and core.kind == 'f' and core.args[0] == 'floor':
                return add(const(1), neg(fn('mod', rest, args[1])))
    elif name == 'log':
        if a.kind == 'c' and a.args == 1:
            return const(0)
    elif name == 'exp':
        if a.kind == 'c' and a.args == 0:
            return const(1)
    elif name in ('K', 'E'):
        if a.kind == 'c' and a.args == 0:
            return scale(Fraction(1, 2), pi())
        if name == 'E' and a.kind == 'c' and a.args == 1:
            return const(1)
    elif name in ('sn', 'cn', 'dn', 'am'):
        return _jacobi(name, a, args[1])
    elif name in ('F', 'Einc'):
        if a.kind == 'c' and a.args == 0:
            return const(0)
        if args[1].kind == 'c' and args[1].args == 0:
            return a
        c, m = _split(a)
        if c < 0 and m.kind != 'v':
            return neg(fn(name, neg(a), args[1]))
        r = _pi_multiple(a)
        if r is not None:
            tw = r * 2
            if tw.denominator == 1:
                return scale(tw, fn('K' if name == 'F' else 'E', args[1]))
    elif name == 'RF':
        return _rf(*args)
    elif name == 'RD' and args[2].kind == 'c' and args[2].args == 1 and any(t.kind == 'c' and t.args == 0 for t in args[:2]) and not all(t.kind == 'c' for t in args[:2]):
        m = sub(const(1), args[1] if args[0].kind == 'c' and args[0].args == 0 else args[0])
        return mul(const(3), sub(fn('K', m), fn('E', m)), power(m, -1))
    elif name in ('RD', 'RJ') and all(t.kind == 'c' for t in args[:3]) and sorted(t.args for t in args[:3]) == [0, 1, 1]:
        if name == 'RD' and args[2].args == 1:
            return scale(Fraction(3, 4), pi())
        if name == 'RJ':        # 3 pi / (2 (p + sqrt p))
            return mul(scale(Fraction(3, 2), pi()), power(add(args[3], fn('sqrt', args[3])), -1))
    return _mk('f', (name,) + args)


def _pi_multiple(a):
    if a.kind == 'c' and a.args == 0:
        return Fraction(0)
    if a.kind == 'v' and a.args == 'pi':
        return Fraction(1)
    if a.kind == 'a' and a.args[0] == 0 and len(a.args[1]) == 1 and a.args[1][0][0] is pi():
        return a.args[1][0][1]
    return None


def pieces(n, T):
    """the places in n (a sum of products of sums) that are a rational multiple of T: their multiples of T"""
    if n is T:
        return [Fraction(1)]
    if n.kind == 'c':
        return [n.args] if T.kind == 'c' and n.args else []
    if n.kind == 'a':
        out = [n.args[0]] if T.kind == 'c' and n.args[0] else []
        for t, c in n.args[1]:
            out += [c * k for k in pieces(t, T)]
        return out
    if n.kind == 'm':
        out = []
        for b, e in n.args:
            if b.kind == 'a' and e == 1:
                c, t = _split(div(T, _without(n, b)))
                if t.kind == 'c':
                    c, t = t.args, const(1)
                out += [k / c for k in pieces(b, t)]
        return out
    return []


def _without(n, b):
    return _powprod([(u, e) for u, e in n.args if u is not b])


def take(n, T, part):
    """(k, rest) with n = k T + rest: part(c) T is taken out of every place that is c T"""
    if n is T:
        k = part(Fraction(1))
        return k, scale(1 - k, n)
    if n.kind == 'c':
        k = part(n.args) if T.kind == 'c' and n.args else Fraction(0)
        return k, const(n.args - k)
    if n.kind == 'a':
        k = part(n.args[0]) if T.kind == 'c' and n.args[0] else Fraction(0)
        rest = [const(n.args[0] - k)]
        for t, c in n.args[1]:
            h, r = take(t, T, lambda v, c=c: part(c * v) / c)
            k += c * h
            rest.append(scale(c, r))
        return k, add(*rest)
    if n.kind == 'm':
        for b, e in n.args:
            if b.kind == 'a' and e == 1:
                F = _without(n, b)
                c, t = _split(div(T, F))
                if t.kind == 'c':
                    c, t = t.args, const(1)
                if pieces(b, t):
                    h, r = take(b, t, lambda v, c=c: part(v / c) * c)
                    return h / c, mul(F, r)
    return Fraction(0), n


def _whole(v):
    return v


def _even(v):
    return Fraction(2 * int(v / 2))


def _split_pi(a):
    """a = k*pi + rest"""
    if a.kind == 'v' and a.args == 'pi':
        return Fraction(1), const(0)
    if a.kind == 'a':
        p = pi()
        for t, c in a.args[1]:
            if t is p:
                return c, _mkadd(a.args[0], {u: k for u, k in a.args[1] if u is not p})
    return Fraction(0), a


def _trig(name, a):
    if a.kind == 'c' and a.args == 0:
        return const(0 if name == 'sin' else 1)
    k, rest = take(a, pi(), _whole)
    if k != 0:
        q = (k * 2) % 4
        if q.denominator == 1:
            s, c = fn('sin', rest), fn('cos', rest)
            q = int(q)
            if name == 'sin':
                return (s, c, neg(s), neg(c))[q]
            return (c, neg(s), neg(c), s)[q]
        if rest.kind == 'c' and rest.args == 0:
            r = (k * 6) % 12
            if r.denominator == 1:
                r = int(r)
                tab = {1: (Fraction(1, 2), None), 5: (Fraction(1, 2), None), 7: (Fraction(-1, 2), None), 11: (Fraction(-1, 2), None)}
                s3 = scale(Fraction(1, 2), fn('sqrt', const(3)))
                ang = r if name == 'sin' else (3 - r) % 12
                if ang in tab:
                    return const(tab[ang][0])
                if ang in (2, 4):
                    return s3
                if ang in (8, 10):
                    return neg(s3)
            r = (k * 4) % 8
            if r.denominator == 1:
                s2 = scale(Fraction(1, 2), fn('sqrt', const(2)))
                ang = int(r) if name == 'sin' else (2 - int(r)) % 8
                if ang in (1, 3):
                    return s2
                if ang in (5, 7):
                    return neg(s2)
        return None
    if a.kind == 'f':
        f, x = a.args[0], a.args[1]
        if f == 'arcsin':
            return x if name == 'sin' else fn('sqrt', sub(const(1), power(x, 2)))
        if f == 'arccos':
            return x if name == 'cos' else fn('sqrt', sub(const(1), power(x, 2)))
        if f == 'arctan':
            h = fn('sqrt', add(const(1), power(x, 2)))
            return div(x, h) if name == 'sin' else div(const(1), h)
        if f == 'arctan2':
            h = fn('sqrt', add(power(x, 2), power(a.args[2], 2)))
            return div(x, h) if name == 'sin' else div(a.args[2], h)
        if f == 'am':
            return fn('sn' if name == 'sin' else 'cn', a.args[1], a.args[2])
        if f == 'abs':
            return fn('cos', x) if name == 'cos' else (fn('abs', fn('sin', x)) if _small(x) else None)
    c, m = _split(a)
    if c < 0 or (c == 1 and a.kind == 'a' and a.args[1][0][1] < 0):
        return fn('cos', neg(a)) if name == 'cos' else neg(fn('sin', neg(a)))
    return None


def _small(x):
    """|x| <= pi for sure"""
    c, m = _split(x)
    if m.kind == 'f' and m.args[0] in ('arcsin', 'arctan', 'arccos'):
        return abs(c) <= (1 if m.args[0] == 'arccos' else 2)
    return False


def offset(a):
    """a = constant + rest"""
    if a.kind == 'a' and a.args[0]:
        return a.args[0], add(a, const(-a.args[0]))
    return Fraction(0), a


def _turns(a):
    """c (k pi + x) / pi with the integer c k written separately"""
    c, n = _split(a)
    if n.kind == 'm' and len(n.args) == 2 and dict(n.args).get(pi()) == -1:
        for b, e in n.args:
            if b.kind == 'a' and e == 1:
                k, rest = _split_pi(b)
                if k and (c * k).denominator == 1:
                    return add(const(c * k), scale(c, mul(power(pi(), -1), rest)))
    k, rest = take(a, const(1), lambda v: Fraction(int(v)))
    if k and not (a.kind == 'a' and a.args[0]):
        return add(const(k), rest)
    return a


def _periods(u, Km):
    """u with the even multiples of K(m) in it written separately"""
    k, rest = take(u, Km, _even)
    return add(scale(k, Km), rest) if k else u


def _jacobi(name, u, m):
    """sn/cn/dn/am(u|m), reducing u by quarter periods and inverting F."""
    if m.kind == 'c' and m.args == 0:
        if name == 'dn':
            return const(1)
        if name == 'am':
            return u
        return fn('sin' if name == 'sn' else 'cos', u)
    if u.kind == 'c' and u.args == 0:
        return const({'sn': 0, 'cn': 1, 'dn': 1, 'am': 0}[name])
    # u = j*K(m) + rest
    Km = fn('K', m)
    u = _periods(u, Km)
    j, rest = Fraction(0), u
    if u is Km:
        j, rest = Fraction(1), const(0)
    elif u.kind == 'a':
        for t, c in u.args[1]:
            if t is Km:
                j = c
                rest = _mkadd(u.args[0], {w: k for w, k in u.args[1] if w is not Km})
    if j != 0 and j.denominator == 1 and (j % 2 == 0 or rest.kind == 'c' or rest.kind == 'f' or True):
        j = int(j)
        if name == 'am':
            if j % 2 == 0:
                return add(scale(Fraction(j, 2), pi()), fn('am', rest, m))
            if rest.kind == 'c' and rest.args == 0:
                return scale(Fraction(j, 2), pi())
        else:
            s, c, d = fn('sn', rest, m), fn('cn', rest, m), fn('dn', rest, m)
            q = j % 4
            kp = fn('sqrt', sub(const(1), m))
            if name == 'sn':
                return (s, div(c, d), neg(s), neg(div(c, d)))[q]
            if name == 'cn':
                return (c, neg(div(mul(kp, s), d)), neg(c), div(mul(kp, s), d))[q]
            if name == 'dn':
                return (d, div(kp, d))[q % 2]
    c0, mon = _split(u)
    if mon.kind == 'f' and mon.args[0] == 'F' and mon.args[2] is m and c0 in (1, -1):
        phi = mon.args[1]
        if name == 'am':
            return scale(c0, phi)
        s = fn('sin', phi)
        if name == 'sn':
            return scale(c0, s)
        if name == 'cn':
            return fn('cos', phi)
        return fn('sqrt', sub(const(1), mul(m, power(s, 2))))
    if c0 < 0:
        v = neg(u)
        r = _mk('f', (name, v, m))
        return neg(r) if name in ('sn', 'am') else r
    return _mk('f', (name, u, m))


def _rf(x, y, z):
    zero = [t for t in (x, y, z) if t.kind == 'c' and t.args == 0]
    one = [t for t in (x, y, z) if t.kind == 'c' and t.args == 1]
    if len(zero) == 1 and one:
        rest = [t for t in (x, y, z) if t is not zero[0]]
        rest.remove(one[0])
        return fn('K', sub(const(1), rest[0]))
    if len(one) == 3:
        return const(1)
    return _mk('f', ('RF', x, y, z))


def children(n):
    if n.kind == 'a':
        return [t for t, c in n.args[1]]
    if n.kind == 'm':
        return [t for t, e in n.args]
    if n.kind == 'f':
        return list(n.args[1:])
    return []


def walk(roots):
    """all nodes below roots, children first"""
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for c in children(n):
            if c.id not in seen:
                stack.append((c, False))
    return out


def free_vars(*roots):
    return {n.args for n in walk(roots) if n.kind == 'v'}


def substitute(roots, mapping):
    """replace nodes (by identity) bottom-up and rebuild"""
    memo = dict(mapping)
    single = isinstance(roots, Node)
    rs = [roots] if single else list(roots)
    for n in walk(rs):
        if n in memo:
            continue
        if n.kind in 'cv':
            memo[n] = n
        elif n.kind == 'a':
            memo[n] = add(const(n.args[0]), *[scale(c, memo[t]) for t, c in n.args[1]])
        elif n.kind == 'm':
            memo[n] = _powprod([(memo[b], e) for b, e in n.args])
        else:
            memo[n] = fn(n.args[0], *[memo[x] for x in n.args[1:]])
    return memo[rs[0]] if single else [memo[r] for r in rs]


def show(n, depth=6):
    if depth == 0:
        return '..'
    if n.kind == 'c':
        return str(n.args)
    if n.kind == 'v':
        return n.args
    if n.kind == 'a':
        s = [] if n.args[0] == 0 else [str(n.args[0])]
        for t, c in n.args[1]:
            s.append(('' if c == 1 else '-' if c == -1 else str(c) + '*') + show(t, depth - 1))
        return '(' + ' + '.join(s) + ')'
    if n.kind == 'm':
        return '*'.join(show(b, depth - 1) + ('' if e == 1 else '^%d' % e) for b, e in n.args)
    return '%s(%s)' % (n.args[0], ', '.join(show(x, depth - 1) for x in n.args[1:]))


# ---------------------------------------------------------------- conditions

class Cond:
    """Boolean condition: ('lt'|'le'|'eq', expr) meaning expr <op> 0, 'not', 'and', 'or', 'const'."""
    __slots__ = ('op', 'args', 'key')

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self.key = (op,) + tuple(a.key if isinstance(a, Cond) else a for a in args)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key == o.key

    def __repr__(self):
        if self.op == 'const':
            return str(self.args[0])
        if self.op in ('lt', 'le', 'eq'):
            return '%s %s 0' % (show(self.args[0], 5), {'lt': '<', 'le': '<=', 'eq': '=='}[self.op])
        if self.op == 'not':
            return 'not(%r)' % self.args[0]
        return '(' + (' %s ' % self.op).join(map(repr, self.args)) + ')'


TRUE, FALSE = Cond('const', True), Cond('const', False)


def cmp(op, e):
    if e.kind == 'c':
        v = e.args
        return TRUE if {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op] else FALSE
    if op in ('lt', 'le', 'eq'):
        # normalise scale (and sign for equalities) so that equal conditions share a key
        lead = e.args[1][0][1] if e.kind == 'a' else Fraction(1)
        k = abs(lead) if op != 'eq' else lead
        if k != 1:
            e = scale(1 / k, e)
        # a square / a square root / an elliptic integral has a known sign
        s = known_sign(e)
        if s == '+':
            return FALSE
        if s == '-':
            return FALSE if op == 'eq' else TRUE
        if s == '0+' and op == 'lt':
            return FALSE
        if s == '0-' and op == 'le':
            return TRUE
    return Cond(op, e)


def known_sign(e):
    if e.kind == 'c':
        return '+' if e.args > 0 else '-' if e.args < 0 else '0+'
    if e.kind == 'v':
        return '+' if e.args == 'pi' else None
    if e.kind == 'f':
        if e.args[0] in ('sqrt', 'abs'):
            return '0+'
        if e.args[0] in ('K', 'E', 'exp', 'dn'):
            return '+'
        return None
    if e.kind == 'm':
        s, strict = 1, True
        for b, k in e.args:
            t = known_sign(b)
            if k % 2 == 0:
                if t not in ('+', '-'):
                    strict = False
                continue
            if t is None:
                return None
            if t[0] == '0':
                strict = False
            if t[-1] == '-':
                s = -s
        return ('' if strict else '0') + ('+' if s > 0 else '-')
    if e.kind == 'a':
        signs = set()
        strict = False
        if e.args[0] != 0:
            signs.add(e.args[0] > 0)
            strict = True
        for t, c in e.args[1]:
            k = known_sign(t)
            if k is None:
                return None
            signs.add((k[-1] == '+') == (c > 0))
            if k[0] != '0':
                strict = True
        if len(signs) == 1:
            return ('' if strict else '0') + ('+' if signs.pop() else '-')
    return None


def cnot(c):
    if c.op == 'const':
        return FALSE if c.args[0] else TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'lt':
        return cmp('le', neg(c.args[0]))
    if c.op == 'le':
        return cmp('lt', neg(c.args[0]))
    if c.op == 'and':
        return cor(*[cnot(x) for x in c.args])
    if c.op == 'or':
        return cand(*[cnot(x) for x in c.args])
    return Cond('not', c)


def cand(*cs):
    out = []
    for c in cs:
        if c.op == 'const':
            if not c.args[0]:
                return FALSE
            continue
        if c.op == 'and':
            out.extend(c.args)
        else:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond('and', *out)


def cor(*cs):
    out = []
    for c in cs:
        if c.op == 'const':
            if c.args[0]:
                return TRUE
            continue
        if c.op == 'or':
            out.extend(c.args)
        else:
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond('or', *out)


def cond_nodes(c):
    if isinstance(c, Cond):
        if c.op == 'const':
            return []
        if c.op in ('lt', 'le', 'eq'):
            return [c.args[0]]
        return [n for x in c.args for n in cond_nodes(x)]
    return []


def lt(a, b):
    return cmp('lt', sub(a, b))


def le(a, b):
    return cmp('le', sub(a, b))


def eq(a, b):
    return cmp('eq', sub(a, b))
