"""Values seen by the executed code: Sym (real), SymComplex, SymBool."""
from fractions import Fraction
import math, numbers
import numpy as np
from . import expr as X
import z3
from .expr import Unsupported

EXPLORER = [None]      # the active path explorer
COLLIDE = [False]      # all symbolic values have the same hash


def frac(f):
    """exact rational meant by a float: the simplest rational that prints as the same double"""
    if isinstance(f, (bool, np.bool_)):
        return Fraction(int(f))
    if isinstance(f, (int, np.integer)):
        return Fraction(int(f))
    if isinstance(f, Fraction):
        return f
    f = float(f)
    if math.isnan(f) or math.isinf(f):
        raise Unsupported('nan/inf mixed into symbolic arithmetic')
    for d in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 25, 27, 32, 40, 48, 50, 60, 64, 100):
        n = round(f * d)
        if n / d == f:
            return Fraction(n, d)
    return Fraction(repr(f))


_PI_MULT = {}
for _n in range(1, 25):
    for _d in (1, 2, 3, 4, 6, 8, 12, 180, 360):
        for _s in (1, -1):
            _PI_MULT.setdefault(_s * math.pi * _n / _d, Fraction(_s * _n, _d))
            _PI_MULT.setdefault(_s * _n * (math.pi / _d), Fraction(_s * _n, _d))
for _n in range(1, 13):
    for _d in (1, 2, 3, 4):
        for _s in (1, -1):
            _PI_MULT.setdefault(_s * _n / (math.pi * _d), None)


def lift(v):
    """python value -> Node, or None if it is not a real number"""
    if isinstance(v, Sym):
        return v.n
    if isinstance(v, X.Node):
        return v
    if isinstance(v, (bool, np.bool_)):
        return X.const(int(v))
    if isinstance(v, (int, np.integer, Fraction)):
        return X.const(Fraction(int(v)) if not isinstance(v, Fraction) else v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v in _PI_MULT and _PI_MULT[v] is not None:
            return X.scale(_PI_MULT[v], X.pi())
        if math.isnan(v) or math.isinf(v):
            return None
        return X.const(frac(v))
    if isinstance(v, SymBool):
        return X.const(int(bool(v)))
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return lift(v.item())
    return None


def is_nan(v):
    return isinstance(v, (float, np.floating)) and (math.isnan(v))


def is_inf(v):
    return isinstance(v, (float, np.floating)) and math.isinf(v)


def wrap(n):
    return Sym(n)


def current():
    return EXPLORER[0]


def decide(c):
    if c.op == 'const':
        return c.args[0]
    e = EXPLORER[0]
    if e is None:
        raise Unsupported('branch on a symbolic condition outside of exploration: %r' % (c,))
    return e.decide(c)


def require(kind, c):
    """side condition of an operation (denominator nonzero, radicand nonnegative, ...)"""
    e = EXPLORER[0]
    if e is not None and c.op != 'const':
        e.side(kind, c)
    elif c.op == 'const' and not c.args[0] and e is not None:
        e.side(kind, c)


def concrete(v, lo=-4096, hi=4096):
    """the integer value of an integer-valued expression, one path per value"""
    from . import numeric as N, smt
    ex = EXPLORER[0]
    if ex is None:
        raise Unsupported('integer value of a symbolic expression')
    v = Sym(lift(v))
    if v.n.kind == 'c':
        return int(v.n.args)
    tried = set()
    for _ in range(400):
        k = None
        for e, m in zip(ex._live, ex._memos):
            try:
                w = int(N.mp.nint(N.evalf(v.n, e, m)))
            except N.Undefined:
                continue
            if w not in tried:
                k = w
                break
        if k is None:
            t = ex._trans.term(v.n)
            i = z3.Int('index!')
            r, m = smt.check(ex._zpc() + ex._trans.defs + [t == z3.ToReal(i), i >= lo, i <= hi], 4)
            if r == 'unsat':
                from .explore import Infeasible
                raise Infeasible()
            if r != 'sat':
                raise Unsupported('integer value of a symbolic expression')
            k = m.eval(i).as_long()
        tried.add(k)
        if decide(X.eq(v.n, X.const(k))):
            return k
    raise Unsupported('too many integer values')


class SymBool:
    __slots__ = ('c',)
    __array_priority__ = 1000

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return decide(self.c)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.c
        if isinstance(o, (bool, np.bool_)):
            return X.TRUE if o else X.FALSE
        if isinstance(o, (int,)):
            return X.TRUE if o else X.FALSE
        return None

    def __and__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SymBool(X.cand(self.c, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SymBool(X.cor(self.c, c))
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(X.cnot(self.c))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def item(self):
        return self

    def any(self):
        return self

    all = any

    def __repr__(self):
        return 'SymBool(%r)' % self.c


def mkbool(c):
    if c.op == 'const':
        return c.args[0]
    return SymBool(c)


def _arr(o):
    return isinstance(o, np.ndarray) and o.ndim > 0


class Sym:
    """a real number"""
    __slots__ = ('n', '__weakref__')
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1
    imag = 0
    dtype = np.dtype(float)

    def __init__(self, n):
        self.n = n

    # arithmetic
    def _bin(self, o, f):
        if _arr(o):
            return NotImplemented
        if isinstance(o, SymComplex) or isinstance(o, complex):
            return NotImplemented
        if is_nan(o):
            return math.nan
        n = lift(o)
        if n is None:
            if is_inf(o):
                raise Unsupported('infinity in symbolic arithmetic')
            return NotImplemented
        return Sym(f(self.n, n))

    def __add__(self, o):
        return self._bin(o, X.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: X.add(b, a))

    def __sub__(self, o):
        return self._bin(o, X.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: X.sub(b, a))

    def __mul__(self, o):
        return self._bin(o, X.mul)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: X.mul(b, a))

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _div(b, a))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: X.fn('floor', _div(a, b)))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: X.fn('floor', _div(b, a)))

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _mod(b, a))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if _arr(o):
            return NotImplemented
        return _pow(self, o)

    def __rpow__(self, o):
        return _pow(Sym(lift(o)), self)

    def __neg__(self):
        return Sym(X.neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(_abs(self.n))

    # comparisons
    def _cmp(self, o, f):
        if _arr(o):
            return NotImplemented
        if is_nan(o):
            return False
        if is_inf(o):
            big = o > 0
            return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False}[f]
        n = lift(o)
        if n is None:
            return NotImplemented
        a, b = self.n, n
        if f == 'lt':
            return mkbool(X.lt(a, b))
        if f == 'le':
            return mkbool(X.le(a, b))
        if f == 'gt':
            return mkbool(X.lt(b, a))
        if f == 'ge':
            return mkbool(X.le(b, a))
        return mkbool(X.eq(a, b))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        r = self._cmp(o, 'eq')
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return mkbool(X.cnot(r.c))
        return not r

    def __hash__(self):
        # with COLLIDE every look-up in a dict compares the keys symbolically, so the explorer finds equal ones
        return 0 if COLLIDE[0] else hash(('sym', self.n.id))

    def __bool__(self):
        return decide(X.cnot(X.cmp('eq', self.n)))

    # conversions
    def __float__(self):
        if self.n.kind == 'c':
            return float(self.n.args)
        if self.n is X.pi():
            return math.pi
        if not (X.free_vars(self.n) - {'pi'}):
            from .numeric import evalf
            return float(evalf(self.n, {}))
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.n.kind == 'c':
            return int(self.n.args)
        if not (X.free_vars(self.n) - {'pi'}):
            return int(float(self))
        return concrete(self.__trunc__())

    def __index__(self):
        if self.n.kind == 'c' and self.n.args.denominator == 1:
            return int(self.n.args)
        return concrete(self)

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __round__(self, k=None):
        if self.n.kind == 'c':
            return round(self.n.args, k) if k is not None else round(self.n.args)
        if k is None:
            return Sym(X.fn('floor', X.add(self.n, X.const(Fraction(1, 2)))))
        s = 10 ** k
        return Sym(X.scale(Fraction(1, s), X.fn('floor', X.add(X.scale(s, self.n), X.const(Fraction(1, 2))))))

    def __floor__(self):
        return Sym(X.fn('floor', self.n))

    def __ceil__(self):
        return Sym(X.neg(X.fn('floor', X.neg(self.n))))

    def __trunc__(self):
        if self.n.kind == 'c':
            return math.trunc(self.n.args)
        return Sym(X.mul(X.fn('sign', self.n), X.fn('floor', X.fn('abs', self.n))))

    def __format__(self, spec):
        return X.show(self.n, 3)

    def __repr__(self):
        return 'Sym(%s)' % X.show(self.n, 4)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__':
            return NotImplemented
        from . import shim
        return shim.ufunc(ufunc, inputs, kw)

    # numpy scalar API
    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t, **k):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def tolist(self):
        return self

    def is_integer(self):
        return mkbool(X.eq(self.n, X.fn('floor', self.n)))

    # methods numpy's object loops call
    def sqrt(self):
        return Sym(_sqrt(self.n))

    def sin(self):
        return Sym(X.fn('sin', self.n))

    def cos(self):
        return Sym(X.fn('cos', self.n))

    def tan(self):
        return Sym(X.fn('tan', self.n))

    def arcsin(self):
        return Sym(_arc('arcsin', self.n))

    def arccos(self):
        return Sym(_arc('arccos', self.n))

    def arctan(self):
        return Sym(X.fn('arctan', self.n))

    def arctan2(self, o):
        return Sym(_arctan2(self.n, lift(o)))

    def log(self):
        require('log', X.lt(X.const(0), self.n))
        return Sym(X.fn('log', self.n))

    def exp(self):
        return Sym(X.fn('exp', self.n))

    def floor(self):
        return Sym(X.fn('floor', self.n))

    def ceil(self):
        return self.__ceil__()

    def rint(self):
        return Sym(X.fn('floor', X.add(self.n, X.const(Fraction(1, 2)))))

    def square(self):
        return self * self

    def copysign(self, o):
        return Sym(_copysign(self.n, lift(o)))

    def hypot(self, o):
        return (self * self + o * o).sqrt()


numbers.Real.register(Sym)


def _div(a, b):
    if b.kind == 'c' and b.args == 0:
        require('div', X.FALSE)
        raise ZeroDivisionError('division by zero')
    if b.kind != 'c':
        require('div', X.cnot(X.cmp('eq', b)))
    return X.div(a, b)


def _mod(a, b):
    return X.fn('mod', a, b)


def _sqrt(n):
    if n.kind == 'c' and n.args < 0:
        require('sqrt', X.FALSE)
    elif n.kind != 'c':
        if not (n.kind == 'm' and all(e % 2 == 0 for b, e in n.args)):
            require('sqrt', X.le(X.const(0), n))
    return X.fn('sqrt', n)


def _arc(name, n):
    if n.kind == 'c':
        if abs(n.args) > 1:
            require(name, X.FALSE)
    else:
        require(name, X.cand(X.le(n, X.const(1)), X.le(X.const(-1), n)))
    return X.fn(name, n)


def _abs(n):
    s = X.known_sign(n)
    if s and s[-1] == '+':
        return n
    if s and s[-1] == '-':
        return X.neg(n)
    e = EXPLORER[0]
    if e is not None and not (getattr(e, 'extremes', None) is not None and X.free_vars(n) - {'pi'}):
        k = e.sign_of(n)
        if k == '+':
            return n
        if k == '-':
            return X.neg(n)
    return X.fn('abs', n)


def _sign(n):
    s = X.known_sign(n)
    if s == '+':
        return X.const(1)
    if s == '-':
        return X.const(-1)
    e = EXPLORER[0]
    if e is not None:
        if decide(X.cmp('eq', n)):
            return X.const(0)
        return X.const(-1) if decide(X.cmp('lt', n)) else X.const(1)
    return X.fn('sign', n)


def ite(c, a, b):
    """the value of a conditional without splitting the path (only where the explorer is told to merge)"""
    if a is b:
        return a
    e = EXPLORER[0]
    if c.op == 'const':
        return a if c.args[0] else b
    if e is not None and c.key in e._cache:
        return a if e._cache[c.key] else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'and':
        r = a
        for x in reversed(c.args):
            r = ite(x, r, b)
        return r
    if c.op == 'or':
        r = b
        for x in reversed(c.args):
            r = ite(x, a, r)
        return r
    return X.fn('if' + c.op, c.args[0], a, b)


def merging():
    e = EXPLORER[0]
    return e is not None and e.merge


def _copysign(m, s):
    """|m| with the sign of s (the code only ever asks for reals; the sign of zero is +)"""
    k = X.known_sign(s)
    e = EXPLORER[0]
    if k in ('+', '0+'):
        return _abs(m)
    if k == '-':
        return X.neg(_abs(m))
    if e is not None:
        if e.merge:
            return ite(X.cmp('lt', s), X.neg(_abs(m)), _abs(m))
        return X.neg(_abs(m)) if decide(X.cmp('lt', s)) else _abs(m)
    return X.mul(_abs(m), X.fn('sign', s))


def _arctan2(y, x):
    return X.fn('arctan2', y, x)


def _pow(b, o):
    if isinstance(o, Sym):
        if o.n.kind != 'c':
            raise Unsupported('symbolic exponent')
        q = o.n.args
    elif isinstance(o, (int, np.integer)):
        q = Fraction(int(o))
    elif isinstance(o, (float, np.floating, Fraction)):
        q = frac(o)
    else:
        return NotImplemented
    n = b.n
    if q.denominator == 1:
        if q < 0:
            if n.kind == 'c' and n.args == 0:
                require('div', X.FALSE)
                raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            if n.kind != 'c':
                require('div', X.cnot(X.cmp('eq', n)))
        return Sym(X.power(n, int(q)))
    if q.denominator == 2:
        s = _sqrt(n)
        if q < 0:
            require('div', X.cnot(X.cmp('eq', n)))
        return Sym(X.power(s, int(q * 2)))
    raise Unsupported('fractional power %s' % q)


class SymComplex:
    """re + i*im with im != 0 (the members of a conjugate pair of roots) or results thereof"""
    __slots__ = ('re', 'im')
    __array_priority__ = 2000
    ndim = 0
    shape = ()

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymComplex(self.re, -self.im)
    conj = conjugate

    @staticmethod
    def of(o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, complex):
            return SymComplex(o.real, o.imag)
        if isinstance(o, np.ndarray):
            return None
        return SymComplex(o, 0)

    def __add__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        return SymComplex((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        return SymComplex.of(o) / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise Unsupported('complex power')
        r = SymComplex(1, 0)
        for _ in range(k):
            r = r * self
        return r

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def _noorder(self, o):
        raise Unsupported('ordering of complex values')
    __lt__ = __le__ = __gt__ = __ge__ = _noorder

    def __eq__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else bool(self.re == o.re) and bool(self.im == o.im)

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return 'SymComplex(%r,%r)' % (self.re, self.im)
