"""Numeric evaluation of nodes and conditions with mpmath (used to confirm that a branch is reachable, to
diversify solver models and to compare the encoding with the real code)."""
import math
import mpmath as mp
from . import expr as X

mp.mp.dps = 30


class Undefined(Exception):
    pass


def _sq(v):
    if v < 0:
        if v > -mp.mpf(10) ** -18:
            return mp.mpf(0)
        raise Undefined('sqrt of %s' % v)
    return mp.sqrt(v)


def _arc(f):
    def g(v):
        if abs(v) > 1:
            if abs(v) < 1 + mp.mpf(10) ** -18:
                v = mp.sign(v)
            else:
                raise Undefined('arc of %s' % v)
        return f(v)
    return g


def _floor(v):
    r = mp.nint(v)
    return r if abs(v - r) < mp.mpf(10) ** -18 else mp.floor(v)


def am(u, m):
    if m == 0:
        return u
    K = mp.ellipk(m)
    n = mp.nint(u / (2 * K))
    return n * mp.pi + mp.asin(_clip(mp.ellipfun('sn', u - 2 * n * K, m=m)))


def _clip(v):
    v = mp.re(v)
    return max(mp.mpf(-1), min(mp.mpf(1), v))


def _log(v):
    if v <= 0:
        raise Undefined('log')
    return mp.log(v)


def _rj(x, y, z, p):
    """R_J, the Cauchy principal value for p < 0 (DLMF 19.20.14)"""
    if p >= 0:
        return mp.elliprj(x, y, z, p)
    x, y, z = sorted((x, y, z))
    q = -p
    p = (z * (x + y + q) - x * y) / (z + q)
    return ((p - z) * mp.elliprj(x, y, z, p) - 3 * mp.elliprf(x, y, z) + 3 * mp.sqrt(x * y * z / (x * y + p * q)) * mp.elliprc(x * y + p * q, p * q)) / (q + z)


FN = {
    'sqrt': _sq, 'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'arcsin': _arc(mp.asin), 'arccos': _arc(mp.acos),
    'arctan': mp.atan, 'arctan2': mp.atan2, 'abs': abs, 'sign': mp.sign, 'floor': _floor,
    'mod': lambda a, b: a - b * _floor(a / b), 'log': _log, 'exp': mp.exp,
    'K': mp.ellipk, 'E': mp.ellipe, 'F': lambda p, m: mp.ellipf(p, m), 'Einc': lambda p, m: mp.ellipe(p, m),
    'sn': lambda u, m: mp.re(mp.ellipfun('sn', u, m=m)), 'cn': lambda u, m: mp.re(mp.ellipfun('cn', u, m=m)),
    'dn': lambda u, m: mp.re(mp.ellipfun('dn', u, m=m)), 'am': am,
    'ifeq': lambda n, a, b: a if abs(n) <= TOL else b, 'iflt': lambda n, a, b: a if n < -TOL else b,
    'ifle': lambda n, a, b: a if n <= TOL else b,
    'RF': mp.elliprf, 'RD': mp.elliprd, 'RJ': _rj,
}


def evalf(n, env, memo=None):
    if memo is None:
        memo = {}
    if n.id in memo:
        return memo[n.id]
    for k in X.walk([n]):
        if k.id in memo:
            continue
        if k.kind == 'c':
            v = mp.mpf(k.args.numerator) / k.args.denominator
        elif k.kind == 'v':
            if k.args == 'pi':
                v = +mp.pi
            else:
                if k.args not in env:
                    raise Undefined('no value for ' + k.args)
                v = env[k.args]
                if callable(v):
                    v = v(env)
                    env[k.args] = v
                if v is None:
                    raise Undefined(k.args)
                v = mp.mpf(v.numerator) / v.denominator if hasattr(v, 'denominator') and not isinstance(v, (int, mp.mpf)) else mp.mpf(v)
        elif k.kind == 'a':
            v = mp.mpf(k.args[0].numerator) / k.args[0].denominator
            for t, c in k.args[1]:
                v += memo[t.id] * c.numerator / c.denominator
        elif k.kind == 'm':
            v = mp.mpf(1)
            for b, e in k.args:
                w = memo[b.id]
                if e < 0 and w == 0:
                    raise Undefined('division by zero')
                v *= w ** e
        else:
            try:
                v = FN[k.args[0]](*[memo[x.id] for x in k.args[1:]])
            except (ValueError, ZeroDivisionError) as ex:
                raise Undefined(str(ex))
            if isinstance(v, mp.mpc):
                if abs(v.imag) > 1e-15:
                    raise Undefined('complex %s' % k.args[0])
                v = v.real
            if mp.isnan(v):
                raise Undefined('nan')
        memo[k.id] = v
    return memo[n.id]


TOL = mp.mpf(10) ** -15


def holds(c, env, memo=None):
    """truth of a condition at a point; equalities and boundaries are decided with a small tolerance"""
    if memo is None:
        memo = {}
    if c.op == 'const':
        return c.args[0]
    if c.op == 'not':
        return not holds(c.args[0], env, memo)
    if c.op == 'and':
        return all(holds(x, env, memo) for x in c.args)
    if c.op == 'or':
        return any(holds(x, env, memo) for x in c.args)
    v = evalf(c.args[0], env, memo)
    if abs(v) < TOL:
        return c.op in ('le', 'eq')
    if c.op == 'eq':
        return False
    return v < 0
