"""Stand-ins for numpy, scipy, math and matplotlib that the executed repository code imports.

Numeric functions act on Sym values; everything that involves only concrete values falls through to
the real library.  What is a stub (a nondeterministic or axiomatised result) is documented here:
  Polynomial.roots / np.roots   the configuration of the roots is chosen nondeterministically
                                (4 real, 2 real + complex pair, none real; 2 real for quadratics) and the
                                roots are fresh variables tied to the coefficients by Vieta's formulas
  root_scalar / brentq          some zero of the function inside the bracket
  ellipk, ellipe, ellipj, ellipkinc, ellipeinc, elliprf, elliprd, elliprj   opaque functions with the
                                exact rewriting / derivative rules of expr.py and diff.py
  matplotlib, tqdm              recorder objects
"""
import math as _math
import sys
import types
from fractions import Fraction
import numpy as np
from . import expr as X
from . import sym as S
from .sym import Sym, SymBool, SymComplex, lift, Unsupported


def has_sym(v, depth=0):
    if isinstance(v, (Sym, SymBool, SymComplex)):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object
    if isinstance(v, (list, tuple)) and depth < 5:
        return any(has_sym(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 5:
        return any(has_sym(x, depth + 1) for x in v.values())
    return False


def _is_arr(v):
    return isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim > 0)


def oarr(v):
    """array with object dtype"""
    if isinstance(v, np.ndarray):
        return v if v.dtype == object else v.astype(object)
    if isinstance(v, (Sym, SymBool, SymComplex)):
        a = np.empty((), dtype=object)
        a[()] = v
        return a
    return np.array(v, dtype=object)


COMPARE = ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal')


class SArr(np.ndarray):
    """object array whose comparisons keep the symbolic conditions (a plain object array decides them)"""

    def __array_ufunc__(self, uf, method, *args, **kw):
        out = kw.get('out')
        base = lambda v: v.view(np.ndarray) if isinstance(v, SArr) else v
        if out:
            kw['out'] = tuple(base(o) for o in out)
        if method == '__call__' and uf.__name__ in COMPARE and 'dtype' not in kw and not out:
            kw['dtype'] = object
        r = getattr(uf, method)(*[base(a) for a in args], **kw)
        if out:
            return out[0] if len(out) == 1 else out
        wrap = lambda v: v.view(SArr) if isinstance(v, np.ndarray) and v.dtype == object else v
        return tuple(wrap(v) for v in r) if isinstance(r, tuple) else wrap(r)

    @staticmethod
    def _key(k):
        f = lambda v: boolarr(v) if isinstance(v, np.ndarray) and v.dtype == object else v
        return tuple(f(v) for v in k) if isinstance(k, tuple) else f(k)

    def __getitem__(self, k):
        return super().__getitem__(self._key(k))

    def __setitem__(self, k, v):
        super().__setitem__(self._key(k), v)

    # keeps the class when joined with other arrays
    __array_priority__ = 1.0

    def min(self, *a, **k):
        v = None if a or k else extreme(self, 'min')
        return super().min(*a, **k) if v is None else v

    def max(self, *a, **k):
        v = None if a or k else extreme(self, 'max')
        return super().max(*a, **k) if v is None else v

    def any(self, *a, **k):
        return boolarr(self).any(*a, **k)

    def all(self, *a, **k):
        return boolarr(self).all(*a, **k)


def extreme(a, kind):
    """the least or greatest of many values: an unknown number (see Explorer.extremes), or None where that is not wanted"""
    e = S.current()
    reg = getattr(e, 'extremes', None)
    if reg is None or np.size(a) <= 16:
        return None
    els = []
    for v in oarr(a).ravel():
        n = lift(v)
        if n is None:
            return None
        els.append(n)
    els = list(dict.fromkeys(els))
    for v, (k, other) in reg.items():
        if k == kind and other == els:
            return Sym(v)
    return Sym(e.extreme(els, kind))


def elementwise(f, nin, name=None):
    vf = np.frompyfunc(f, nin, 1)

    def g(*args, **kw):
        out = kw.pop('out', None)
        wh = kw.pop('where', True)
        kw.pop('dtype', None)
        if kw:
            raise Unsupported('keyword arguments %r of %s' % (sorted(kw), name))
        if wh is not True or out is not None:
            bargs = [oarr(a) for a in args]
            res = np.empty(np.broadcast(*bargs).shape, dtype=object)
            if out is not None:
                res[...] = oarr(out)
            w = np.broadcast_to(oarr(wh), res.shape)
            bb = [np.broadcast_to(b, res.shape) for b in bargs]
            for i in np.ndindex(res.shape):
                if bool(w[i]):
                    res[i] = f(*[b[i] for b in bb])
            if out is not None:
                out[...] = res
                return out
            return res if res.ndim else res.item()
        if any(_is_arr(a) for a in args):
            r = vf(*[oarr(a) if _is_arr(a) or isinstance(a, (Sym, SymBool, SymComplex)) else a for a in args])
            if isinstance(r, np.ndarray) and r.dtype == object and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
                return r.astype(bool)
            return r
        args = [a.item() if isinstance(a, np.ndarray) else a for a in args]
        return f(*args)
    g.__name__ = name or f.__name__
    return g


def real1(f):
    def g(x):
        if isinstance(x, SymComplex):
            raise Unsupported('%s of a complex value' % f.__name__)
        if S.is_nan(x):
            return _math.nan
        n = lift(x)
        if n is None:
            return f(x)
        return Sym(f(n))
    g.__name__ = f.__name__
    return g


def _fn1(name):
    def f(n):
        if isinstance(n, float):
            return getattr(np, name)(n)
        return X.fn(name, n)
    f.__name__ = name
    return f


def _csqrt(x):
    return Sym(S._sqrt(lift(x)))


def _sqrt(x):
    if isinstance(x, SymComplex):
        raise Unsupported('sqrt of complex')
    n = lift(x)
    if n is None:
        return np.sqrt(x)
    return Sym(S._sqrt(n))


def _arc(name):
    def f(x):
        n = lift(x)
        if n is None:
            return getattr(np, name)(x)
        return Sym(S._arc(name, n))
    f.__name__ = name
    return f


def _abs(x):
    if isinstance(x, SymComplex):
        return abs(x)
    n = lift(x)
    if n is None:
        return abs(x)
    return Sym(S._abs(n))


def _sign(x):
    n = lift(x)
    if n is None:
        return np.sign(x)
    return Sym(S._sign(n))


def _copysign(a, b):
    return Sym(S._copysign(lift(a), lift(b)))


def _arctan2(y, x):
    return Sym(S._arctan2(lift(y), lift(x)))


def _log(x):
    n = lift(x)
    if n is None:
        return np.log(x)
    S.require('log', X.lt(X.const(0), n))
    return Sym(X.fn('log', n))


def _exp(x):
    n = lift(x)
    if n is None:
        return np.exp(x)
    return Sym(X.fn('exp', n))


def _floor(x):
    n = lift(x)
    return np.floor(x) if n is None else Sym(X.fn('floor', n))


def _ceil(x):
    n = lift(x)
    return np.ceil(x) if n is None else Sym(X.neg(X.fn('floor', X.neg(n))))


def _rint(x):
    return Sym(X.fn('floor', X.add(lift(x), X.const(Fraction(1, 2)))))


def _trunc(x):
    return Sym(lift(x)).__trunc__()


def _mod(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return Sym(lift(x)) % y
    return x % y


def _fmod(x, y):
    x, y = Sym(lift(x)), Sym(lift(y))
    return x - y * (x / y).__trunc__()


def _max2(a, b):
    if S.is_nan(a) or S.is_nan(b):
        return _math.nan
    return a if bool(a >= b) else b


def _min2(a, b):
    if S.is_nan(a) or S.is_nan(b):
        return _math.nan
    return a if bool(a <= b) else b


def _is_real(x):
    return not isinstance(x, (SymComplex, complex))


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        raise Unsupported('isclose of complex')
    a, b = Sym(lift(a)), Sym(lift(b))
    return abs(a - b) <= atol + rtol * abs(b)


def _power(a, b):
    if isinstance(a, (Sym, SymComplex)) or isinstance(b, Sym):
        return (a if isinstance(a, (Sym, SymComplex)) else Sym(lift(a))) ** b
    return a ** b


def _div(a, b):
    return a / b


def _deg(k):
    return lambda x: Sym(X.scale(Fraction(k), X.mul(lift(x), X.pi()))) if k < 1 else Sym(X.scale(Fraction(k), X.div(lift(x), X.pi())))


def _hyp(name):
    def f(x):
        n = lift(x)
        e, m = X.fn('exp', n), X.fn('exp', X.neg(n))
        h = Fraction(1, 2)
        if name == 'sinh':
            return Sym(X.scale(h, X.sub(e, m)))
        if name == 'cosh':
            return Sym(X.scale(h, X.add(e, m)))
        return Sym(X.div(X.sub(e, m), X.add(e, m)))
    return f


ELEM = {
    'sqrt': (_sqrt, 1), 'sin': (real1(_fn1('sin')), 1), 'cos': (real1(_fn1('cos')), 1),
    'tan': (real1(_fn1('tan')), 1), 'arcsin': (_arc('arcsin'), 1), 'arccos': (_arc('arccos'), 1),
    'arctan': (real1(_fn1('arctan')), 1), 'arctan2': (_arctan2, 2), 'log': (_log, 1), 'exp': (_exp, 1),
    'floor': (_floor, 1), 'ceil': (_ceil, 1), 'rint': (_rint, 1), 'trunc': (_trunc, 1), 'fix': (_trunc, 1),
    'absolute': (_abs, 1), 'fabs': (_abs, 1), 'sign': (_sign, 1), 'copysign': (_copysign, 2),
    'mod': (_mod, 2), 'remainder': (_mod, 2), 'fmod': (_fmod, 2),
    'maximum': (_max2, 2), 'minimum': (_min2, 2), 'fmax': (_max2, 2), 'fmin': (_min2, 2),
    'square': (lambda x: x * x, 1), 'reciprocal': (lambda x: 1 / x, 1), 'negative': (lambda x: -x, 1),
    'positive': (lambda x: x, 1),
    'add': (lambda a, b: a + b, 2), 'subtract': (lambda a, b: a - b, 2), 'multiply': (lambda a, b: a * b, 2),
    'divide': (_div, 2), 'true_divide': (_div, 2), 'floor_divide': (lambda a, b: a // b, 2),
    'power': (_power, 2), 'float_power': (_power, 2),
    'less': (lambda a, b: a < b, 2), 'less_equal': (lambda a, b: a <= b, 2),
    'greater': (lambda a, b: a > b, 2), 'greater_equal': (lambda a, b: a >= b, 2),
    'equal': (lambda a, b: a == b, 2), 'not_equal': (lambda a, b: a != b, 2),
    'hypot': (lambda a, b: _sqrt(a * a + b * b), 2),
    'isnan': (lambda x: S.is_nan(x), 1), 'isfinite': (lambda x: not (S.is_nan(x) or S.is_inf(x)), 1),
    'isinf': (lambda x: S.is_inf(x), 1),
    'signbit': (lambda x: x < 0, 1),
    'real': (lambda x: x.real, 1), 'imag': (lambda x: x.imag, 1), 'conjugate': (lambda x: x.conjugate(), 1),
    'conj': (lambda x: x.conjugate(), 1),
    'isreal': (_is_real, 1), 'iscomplex': (lambda x: not _is_real(x), 1),
    'isclose': (_isclose, 2),
    'logical_not': (lambda x: not bool(x), 1),
    'logical_and': (lambda a, b: bool(a) and bool(b), 2), 'logical_or': (lambda a, b: bool(a) or bool(b), 2),
    'bitwise_and': (lambda a, b: a & b, 2), 'bitwise_or': (lambda a, b: a | b, 2),
    'invert': (lambda a: ~a if isinstance(a, SymBool) else (not a), 1),
    'radians': (lambda x: Sym(X.scale(Fraction(1, 180), X.mul(lift(x), X.pi()))), 1),
    'deg2rad': (lambda x: Sym(X.scale(Fraction(1, 180), X.mul(lift(x), X.pi()))), 1),
    'degrees': (lambda x: Sym(X.scale(180, X.div(lift(x), X.pi()))), 1),
    'rad2deg': (lambda x: Sym(X.scale(180, X.div(lift(x), X.pi()))), 1),
    'sinh': (_hyp('sinh'), 1), 'cosh': (_hyp('cosh'), 1), 'tanh': (_hyp('tanh'), 1),
    'cbrt': (None, 1),
}
ALIAS = {'abs': 'absolute', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power',
         'round': 'rint', 'around': 'rint', 'bitwise_not': 'invert'}
ALWAYS = ('sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'log', 'exp')   # symbolic even for exact arguments

_elem = {k: elementwise(f, n, k) for k, (f, n) in ELEM.items() if f is not None}


def _exactable(a):
    return isinstance(a, (int, np.integer, Fraction)) or (isinstance(a, (float, np.floating)) and _math.isfinite(a))


def make(name):
    base = ALIAS.get(name, name)
    real = getattr(np, name, None) or getattr(np, base)
    sf = _elem[base]

    def f(*args, **kw):
        if any(has_sym(a) for a in args) or has_sym(kw.get('out')):
            args = list(args)
            if base == 'rint' and name in ('round', 'around') and (len(args) > 1 or kw):
                k = args[1] if len(args) > 1 else kw.get('decimals', 0)
                return _elem['rint'](args[0] * 10 ** k) / 10 ** k if k else _elem['rint'](args[0])
            if base == 'isclose':
                g = elementwise(lambda a, b: _isclose(a, b, **{k: v for k, v in kw.items()}), 2, 'isclose')
                return g(*args[:2])
            return sf(*args, **kw)
        if base in ALWAYS and not kw and all(_exactable(a) for a in args):
            return sf(*args)
        return real(*args, **kw)
    f.__name__ = name
    return f


def ufunc(uf, inputs, kw):
    """called when a real numpy ufunc meets a Sym"""
    name = ALIAS.get(uf.__name__, uf.__name__)
    if name in _elem:
        if kw.get('out'):
            o = kw['out'][0] if isinstance(kw['out'], tuple) else kw['out']
            o[...] = _elem[name](*inputs)
            return o
        return _elem[name](*inputs)
    if uf.__name__ == 'matmul':
        return np.matmul(oarr(inputs[0]), oarr(inputs[1]))
    raise Unsupported('numpy ufunc %s' % uf.__name__)


# ------------------------------------------------------------------ array functions

def where(c, *ab):
    if not ab:
        return np.where(boolarr(c))
    a, b = ab
    c = oarr(c) if not isinstance(c, np.ndarray) else c
    if not (has_sym(c) or has_sym(a) or has_sym(b)):
        return np.where(c.astype(bool) if c.dtype == object else c, a, b)
    kind = any(isinstance(v, SArr) for v in (c, a, b))
    a, b = oarr(a), oarr(b)
    shp = np.broadcast(c, a, b).shape
    c, a, b = (np.broadcast_to(v, shp) for v in (c, a, b))
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        if S.merging() and isinstance(c[i], SymBool):
            x, y = lift(a[i]), lift(b[i])
            if x is not None and y is not None:
                out[i] = Sym(S.ite(c[i].c, x, y))
                continue
        out[i] = a[i] if bool(c[i]) else b[i]
    return out.view(SArr) if kind else out


def boolarr(c):
    c = np.asarray(oarr(c))
    out = np.empty(c.shape, dtype=bool)
    for i in np.ndindex(c.shape):
        out[i] = bool(c[i])
    return out


def sort(a, axis=-1, **kw):
    if not has_sym(a):
        return np.sort(a, axis=axis)
    v = list(oarr(a).ravel())
    out = np.empty(len(v), dtype=object)
    res = []
    for x in v:
        i = len(res)
        while i > 0 and bool(x < res[i - 1]):
            i -= 1
        res.insert(i, x)
    out[:] = res
    return out


def argsort(a, axis=-1, **kw):
    if not has_sym(a):
        return np.argsort(a, axis=axis)
    v = list(oarr(a).ravel())
    res = []
    for k, x in enumerate(v):
        i = len(res)
        while i > 0 and bool(x < v[res[i - 1]]):
            i -= 1
        res.insert(i, k)
    return np.array(res)


def dot(a, b):
    if not (has_sym(a) or has_sym(b)):
        return np.dot(a, b)
    a, b = oarr(a), oarr(b)
    r = np.dot(a, b)
    return r


def linalg_solve(A, b):
    if not (has_sym(A) or has_sym(b)):
        return np.linalg.solve(A, b)
    A, b = oarr(A).copy(), oarr(b).copy()
    n = A.shape[0]
    det = _det([[A[i, j] for j in range(n)] for i in range(n)])
    S.require('div', X.cnot(X.cmp('eq', lift(det))))
    cols = []
    for k in range(n):
        M = [[b[i] if j == k else A[i, j] for j in range(n)] for i in range(n)]
        cols.append(_det(M) / det)
    out = np.empty(n, dtype=object)
    out[:] = cols
    return out


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    s = 0
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in M[1:]]
        t = M[0][j] * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def linalg_det(A):
    if not has_sym(A):
        return np.linalg.det(A)
    A = oarr(A)
    return _det([list(r) for r in A])


def linalg_inv(A):
    if not has_sym(A):
        return np.linalg.inv(A)
    A = [list(r) for r in oarr(A)]
    n = len(A)
    d = _det(A)
    S.require('div', X.cnot(X.cmp('eq', lift(d))))
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(A) if k != j]
            c = _det(minor) if n > 1 else 1
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out


def linalg_norm(a, ord=None, axis=None, keepdims=False):
    if not has_sym(a):
        return np.linalg.norm(a, ord=ord, axis=axis, keepdims=keepdims)
    a = oarr(a)
    s = np.sum(a * a, axis=axis, keepdims=keepdims)
    return _elem['sqrt'](s)


def linspace(a, b, num=50, endpoint=True, **kw):
    if has_sym((a, b)) or all(_exactable(v) for v in (a, b)):
        a, b = lift(a), lift(b)
        n = num if isinstance(num, int) else int(num)
        out = np.empty(n, dtype=object)
        d = (n - 1) if endpoint else n
        for i in range(n):
            t = Fraction(i, d) if d else Fraction(0)
            out[i] = Sym(X.add(X.scale(1 - t, a), X.scale(t, b)))
        return out
    return np.linspace(a, b, num, endpoint, **kw)


def npzeros(shape, dtype=float, fill=0, **kw):
    if dtype in (float, None, np.float64, object, complex):
        a = np.empty(shape, dtype=object)
        a[...] = fill
        return a
    return np.full(shape, fill, dtype=dtype)


def nparray(v, dtype=None, **kw):
    if has_sym(v):
        if dtype in (int, 'int', np.int64):
            return np.array([int(x) for x in v])
        return np.array(v, dtype=object)
    return np.array(v, dtype=dtype, **kw) if dtype is not None else np.array(v, **kw)


def asarray(v, dtype=None, **kw):
    if isinstance(v, np.ndarray) and (dtype is None or v.dtype == object):
        return v
    return nparray(v, dtype)


def isscalar(v):
    return isinstance(v, (Sym, SymBool, SymComplex)) or np.isscalar(v)


def allclose(a, b, **kw):
    r = make('isclose')(a, b, **kw)
    return bool(np.all(boolarr(r))) if has_sym(r) else bool(np.all(r))


def npmax(a, *r, **kw):
    if not has_sym(a):
        return np.max(a, *r, **kw)
    m = None if r or kw else extreme(a, 'max')
    if m is not None:
        return m
    v = list(oarr(a).ravel())
    m = v[0]
    for x in v[1:]:
        m = _max2(m, x)
    return m


def npmin(a, *r, **kw):
    if not has_sym(a):
        return np.min(a, *r, **kw)
    m = None if r or kw else extreme(a, 'min')
    if m is not None:
        return m
    v = list(oarr(a).ravel())
    m = v[0]
    for x in v[1:]:
        m = _min2(m, x)
    return m


def _amax(pick):
    def f(a, axis=None, **kw):
        if not has_sym(a):
            return getattr(np, 'argmax' if pick is _max2 else 'argmin')(a, axis=axis)
        v = list(oarr(a).ravel())
        k = 0
        for i, x in enumerate(v):
            if i and bool(x > v[k] if pick is _max2 else x < v[k]):
                k = i
        return k
    return f


def clip(a, lo=None, hi=None, **kw):
    lo = kw.get('a_min', kw.get('min', lo))
    hi = kw.get('a_max', kw.get('max', hi))
    r = a
    if lo is not None:
        r = make('maximum')(r, lo)
    if hi is not None:
        r = make('minimum')(r, hi)
    return r


def cross(a, b):
    a, b = list(oarr(a)), list(oarr(b))
    return nparray([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def polyval_np(c, x):
    r = 0
    for k in c:
        r = r * x + k
    return r


def np_roots(c):
    return roots_of(list(c)[::-1])


def nan_to_num(x, **kw):
    return x


def npany(a, *r, **kw):
    if has_sym(a):
        a = boolarr(a)
    return np.any(a, *r, **kw)


def npall(a, *r, **kw):
    if has_sym(a):
        a = boolarr(a)
    return np.all(a, *r, **kw)


def count_nonzero(a, *r, **kw):
    if has_sym(a):
        a = boolarr(a)
    return np.count_nonzero(a, *r, **kw)


def vectorize(f, *a, **kw):
    def g(*args):
        if any(_is_arr(x) for x in args):
            return np.frompyfunc(f, len(args), 1)(*[oarr(x) for x in args])
        return f(*args)
    return g


def npfull(shape, v, **kw):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


# ------------------------------------------------------------------ polynomial roots

class Polynomial:
    def __init__(self, coef, *a, **kw):
        self.coef = oarr(coef) if has_sym(coef) else np.asarray(coef)

    def __call__(self, x):
        r = 0
        for c in list(self.coef)[::-1]:
            r = r * x + c
        return r

    def deriv(self, m=1):
        c = list(self.coef)
        for _ in range(m):
            c = [k * v for k, v in enumerate(c)][1:]
        return Polynomial(c or [0])

    def degree(self):
        return len(self.coef) - 1

    def roots(self):
        return roots_of(list(self.coef))

    def __mul__(self, o):
        if isinstance(o, Polynomial):
            c = [0] * (len(self.coef) + len(o.coef) - 1)
            for i, x in enumerate(self.coef):
                for j, y in enumerate(o.coef):
                    c[i + j] = c[i + j] + x * y
            return Polynomial(c)
        return Polynomial([x * o for x in self.coef])
    __rmul__ = __mul__

    def __add__(self, o):
        if not isinstance(o, Polynomial):
            o = Polynomial([o])
        n = max(len(self.coef), len(o.coef))
        g = lambda p, i: p.coef[i] if i < len(p.coef) else 0
        return Polynomial([g(self, i) + g(o, i) for i in range(n)])
    __radd__ = __add__

    def __neg__(self):
        return Polynomial([-x for x in self.coef])

    def __sub__(self, o):
        return self + (-o)

    def __truediv__(self, o):
        return Polynomial([x / o for x in self.coef])

    @classmethod
    def fromroots(cls, roots):
        p = cls([1])
        for r in roots:
            p = p * cls([-r, 1])
        return p


def roots_of(coefs):
    """coefficients in increasing order -> array of roots (numpy's order: increasing for real roots)"""
    if not has_sym(coefs):
        coefs = [Sym(lift(c)) for c in coefs]
    e = S.current()
    if e is None:
        raise Unsupported('polynomial roots outside of exploration')
    return e.roots(coefs)


class RootResult:
    def __init__(self, root):
        self.root, self.converged, self.iterations, self.flag = root, True, 1, 'converged'


def root_scalar(f, args=(), method=None, bracket=None, x0=None, x1=None, **kw):
    if bracket is None:
        raise Unsupported('root_scalar without a bracket')
    e = S.current()
    lo, hi = bracket
    return RootResult(e.bracketed_root(lambda p: f(p, *args), Sym(lift(lo)), Sym(lift(hi))))


def brentq(f, a, b, args=(), full_output=False, disp=True, **kw):
    e = S.current()
    r = e.bracketed_root(lambda p: f(p, *args), Sym(lift(a)), Sym(lift(b)))
    return (r, RootResult(r)) if full_output else r


# ------------------------------------------------------------------ elliptic functions

def _K(m):
    return Sym(X.fn('K', lift(m)))


def _Ec(m):
    return Sym(X.fn('E', lift(m)))


def ellipk(m):
    return _ek(m)


_ek = elementwise(_K, 1, 'ellipk')
_ekm1 = elementwise(lambda p: Sym(X.fn('K', lift(1 - p))), 1, 'ellipkm1')
_ee = elementwise(_Ec, 1, 'ellipe')
_ekinc = elementwise(lambda phi, m: Sym(X.fn('F', lift(phi), lift(m))), 2, 'ellipkinc')


def _Einc1(phi, m):
    return Sym(X.fn('Einc', lift(phi), lift(m)))


_eeinc = elementwise(_Einc1, 2, 'ellipeinc')


def ellipe(m):
    return _ee(m)


def ellipj(u, m):
    if _is_arr(u) or _is_arr(m):
        kind = isinstance(u, SArr) or isinstance(m, SArr)
        u, m = np.broadcast_arrays(oarr(u), oarr(m))
        outs = [np.empty(u.shape, dtype=object) for _ in range(4)]
        for i in np.ndindex(u.shape):
            for o, v in zip(outs, ellipj(u[i], m[i])):
                o[i] = v
        return tuple(o.view(SArr) if kind else o for o in outs)
    e = S.current()
    un, mn = lift(u), lift(m)
    if e is not None and e.canon is not None:
        un, mn = e.canon(un, mn)
    return tuple(Sym(X.fn(k, un, mn)) for k in ('sn', 'cn', 'dn', 'am'))


_rf = elementwise(lambda x, y, z: Sym(X.fn('RF', lift(x), lift(y), lift(z))), 3, 'elliprf')
_rd = elementwise(lambda x, y, z: Sym(X.fn('RD', lift(x), lift(y), lift(z))), 3, 'elliprd')
_rj = elementwise(lambda x, y, z, p: Sym(X.fn('RJ', lift(x), lift(y), lift(z), lift(p))), 4, 'elliprj')
_rc = elementwise(lambda x, y: Sym(X.fn('RF', lift(x), lift(y), lift(y))), 2, 'elliprc')


# ------------------------------------------------------------------ modules

class Recorder:
    """swallows plotting calls"""
    def __init__(self, log=None, name=''):
        self.__dict__['_log'] = log if log is not None else []
        self.__dict__['_name'] = name

    def __call__(self, *a, **k):
        self._log.append((self._name, a, k))
        return Recorder(self._log, self._name + '()')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Recorder(self._log, self._name + '.' + k)

    def __setattr__(self, k, v):
        self._log.append((self._name + '.' + k + '=', (v,), {}))

    def __getitem__(self, k):
        return Recorder(self._log, self._name + '[%r]' % (k,))

    def __iter__(self):
        return iter((Recorder(self._log, self._name),))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class ShimModule(types.ModuleType):
    def __init__(self, name, table, fallback):
        super().__init__(name)
        self.__dict__.update(table)
        self.__dict__['_fallback'] = fallback
        self.__dict__['__path__'] = []
        if fallback is not None and hasattr(fallback, '__all__'):
            self.__dict__['__all__'] = list(fallback.__all__)

    def __getattr__(self, k):
        if k.startswith('__') and k not in ('__version__',):
            raise AttributeError(k)
        fb = self.__dict__['_fallback']
        if fb is None:
            raise AttributeError(k)
        v = getattr(fb, k)
        if isinstance(v, types.ModuleType):
            return MODULES.get(v.__name__, v)
        if callable(v) and not isinstance(v, type):
            def guarded(*a, **kw):
                return v(*a, **kw)
            guarded.__name__ = k
            return guarded
        return v


def _numpy_table():
    t = {n: make(n) for n in list(_elem) + [a for a in ALIAS if hasattr(np, a)] if hasattr(np, n)}
    t.update(
        pi=Sym(X.pi()), where=where, sort=sort, argsort=argsort, dot=dot, inner=dot,
        linspace=linspace, zeros=npzeros, empty=npzeros,
        ones=lambda s, dtype=float, **k: npzeros(s, dtype, 1), full=npfull,
        zeros_like=lambda a, dtype=None, **k: npzeros(np.shape(a)), ones_like=lambda a, dtype=None, **k: npzeros(np.shape(a), float, 1),
        empty_like=lambda a, dtype=None, **k: npzeros(np.shape(a)), full_like=lambda a, v, **k: npfull(np.shape(a), v),
        array=nparray, asarray=asarray, asanyarray=asarray, isscalar=isscalar, allclose=allclose, max=npmax, amax=npmax, min=npmin, amin=npmin,
        argmax=_amax(_max2), argmin=_amax(_min2), clip=clip, cross=cross, polyval=polyval_np, roots=np_roots,
        any=npany, all=npall, count_nonzero=count_nonzero, vectorize=vectorize, nan_to_num=nan_to_num,
        float64=lambda v=0: v, iscomplexobj=lambda v: any(isinstance(x, SymComplex) for x in oarr(v).ravel()) or np.iscomplexobj(v),
        isrealobj=lambda v: not any(isinstance(x, SymComplex) for x in oarr(v).ravel()),
        errstate=lambda **k: Recorder(),
    )
    return t


MODULES = {}


def build():
    """fresh shim modules (one set per exploration run)"""
    import scipy, scipy.special, scipy.optimize, scipy.interpolate
    MODULES.clear()
    X.pi()
    poly = ShimModule('numpy.polynomial', {'Polynomial': Polynomial}, np.polynomial)
    polym = ShimModule('numpy.polynomial.polynomial', {
        'Polynomial': Polynomial, 'polyroots': roots_of,
        'polyval': lambda x, c: polyval_np(list(c)[::-1], x)}, np.polynomial.polynomial)
    poly.__dict__['polynomial'] = polym
    lin = ShimModule('numpy.linalg', {'solve': linalg_solve, 'norm': linalg_norm, 'det': linalg_det, 'inv': linalg_inv}, np.linalg)
    t = _numpy_table()
    t['polynomial'], t['linalg'] = poly, lin
    npm = ShimModule('numpy', t, np)
    mt = {n: make(n) for n in _elem if hasattr(_math, n)}
    mt.update({'pi': Sym(X.pi()), 'fabs': make('fabs'), 'asin': make('arcsin'), 'acos': make('arccos'), 'atan': make('arctan'),
               'atan2': make('arctan2'), 'pow': make('power'), 'copysign': make('copysign'), 'sqrt': make('sqrt'),
               'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: _mclose(a, b, rel_tol, abs_tol),
               'radians': make('radians'), 'degrees': make('degrees'), 'fmod': make('fmod'), 'hypot': make('hypot')})
    mm = ShimModule('math', mt, _math)
    sp = ShimModule('scipy.special', {
        'ellipk': ellipk, 'ellipe': ellipe, 'ellipkm1': _ekm1, 'ellipkinc': _ekinc, 'ellipeinc': _eeinc, 'ellipj': ellipj,
        'elliprf': _rf, 'elliprd': _rd, 'elliprj': _rj, 'elliprc': _rc}, scipy.special)
    op = ShimModule('scipy.optimize', {'root_scalar': root_scalar, 'brentq': brentq, 'brenth': brentq, 'bisect': brentq,
                                       'ridder': brentq, 'toms748': brentq}, scipy.optimize)
    ip = ShimModule('scipy.interpolate', {'RectBivariateSpline': RectSpline}, scipy.interpolate)
    sc = ShimModule('scipy', {'special': sp, 'optimize': op, 'interpolate': ip}, scipy)
    MODULES.update({'numpy': npm, 'numpy.polynomial': poly, 'numpy.polynomial.polynomial': polym, 'numpy.linalg': lin,
                    'math': mm, 'scipy': sc, 'scipy.special': sp, 'scipy.optimize': op, 'scipy.interpolate': ip})
    for nm in ('matplotlib', 'matplotlib.pyplot', 'mpl_toolkits', 'mpl_toolkits.mplot3d', 'mpl_toolkits.mplot3d.art3d',
               'matplotlib.animation', 'matplotlib.collections', 'tqdm', 'tqdm.auto'):
        MODULES[nm] = PlotModule(nm)
    return MODULES


def _mclose(a, b, rel_tol, abs_tol):
    a, b = Sym(lift(a)), Sym(lift(b))
    return abs(a - b) <= _max2(rel_tol * _max2(abs(a), abs(b)), abs_tol)


class RectSpline:
    """records what it was built from"""
    def __init__(self, x, y, z, *a, **kw):
        self.x, self.y, self.z, self.extra = x, y, z, (a, kw)


class PlotModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__dict__['__path__'] = []
        self.__dict__['_log'] = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        full = self.__name__ + '.' + k
        if full in MODULES:
            return MODULES[full]
        return Recorder(self._log, full)
