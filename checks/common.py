"""Shared pieces of the harnesses"""
import os
import random
import sys
from fractions import Fraction
from symk import expr as X
from symk import sym as S
from symk.sym import Sym, SymBool, lift

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.path.join(HERE, 'replay') not in sys.path:
    sys.path.insert(0, os.path.join(HERE, 'replay'))
import kerr


def V(name):
    return Sym(X.var(name))


def K(v):
    return Sym(X.const(Fraction(v)))


def sin(x):
    return Sym(X.fn('sin', lift(x)))


def cos(x):
    return Sym(X.fn('cos', lift(x)))


def sqrt(x):
    return Sym(X.fn('sqrt', lift(x)))


def fn(name, *a):
    return Sym(X.fn(name, *[lift(v) for v in a]))


PI = Sym(X.pi())


def lt(a, b):
    return X.lt(lift(a), lift(b))


def le(a, b):
    return X.le(lift(a), lift(b))


def eq(a, b):
    return X.eq(lift(a), lift(b))


def ne(a, b):
    return X.cnot(X.eq(lift(a), lift(b)))


def q(r, lo, hi, den=1000):
    """rational strictly between lo and hi"""
    lo, hi = Fraction(lo), Fraction(hi)
    return lo + (hi - lo) * Fraction(r.randint(1, den - 1), den)


def delta(r, a):
    return r * r - 2 * r + a * a


def sigma(r, ct, a):
    return r * r + a * a * ct * ct


def Rpot(r, a, E, L, Q):
    return (E * (r * r + a * a) - a * L) ** 2 - delta(r, a) * (r * r + (a * E - L) ** 2 + Q)


def Tpot(ct2, a, E, L, Q):
    """(d theta/d lambda)^2 * sin^2"""
    return (1 - ct2) * (Q - ct2 * a * a * (1 - E * E)) - ct2 * L * L


def dt_r(r, a, E, L):
    return E * (r * r + a * a) ** 2 / delta(r, a) + a * L * (1 - (r * r + a * a) / delta(r, a))


def dt_th(ct2, a, E, L):
    return -E * a * a * (1 - ct2)


def dphi_r(r, a, E, L):
    return a * E * ((r * r + a * a) / delta(r, a) - 1) - a * a * L / delta(r, a)


def dphi_th(ct2, a, E, L):
    return L / (1 - ct2)


def same(j, name, got, want, **kw):
    """two results are equal: reals by the normaliser/solver, everything else structurally"""
    import numpy as np
    if isinstance(want, (tuple, list)) or (isinstance(want, np.ndarray) and want.ndim):
        try:
            n = len(got)
        except TypeError:
            n = -1
        if n != len(want):
            return j.fail(name, 'has the wrong length')
        for k, (g, w) in enumerate(zip(got, want)):
            same(j, '%s[%d]' % (name, k), g, w, **kw)
        return
    if isinstance(got, np.ndarray):
        if got.ndim:
            return j.fail(name, 'is an array')
        got = got.item()
    if isinstance(want, np.ndarray):
        want = want.item()
    if isinstance(want, S.SymComplex) or isinstance(got, S.SymComplex):
        g, w = S.SymComplex.of(got), S.SymComplex.of(want)
        same(j, name + '.re', g.re, w.re, **kw)
        return same(j, name + '.im', g.im, w.im, **kw)
    if isinstance(want, float) and want != want:
        if not (isinstance(got, float) and got != got):
            j.fail(name, 'should be nan')
        return
    g, w = lift(got), lift(want)
    if g is None or w is None:
        if not (got is want or got == want):
            j.fail(name, 'got %r instead of %r' % (type(got).__name__, type(want).__name__))
        return
    j.zero(name, X.sub(g, w), **kw)


def patch(P, orig, new):
    """replace a function under every name the package knows it by"""
    for m in list(P.modules.values()):
        for k, v in list(vars(m).items()):
            if v is orig:
                setattr(m, k, new)
