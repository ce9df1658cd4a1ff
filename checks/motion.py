"""Rates along symbolic trajectories"""
from .common import *
from symk import diff as D
from symk import norm

PH = ('t', 'r', 'theta', 'phi')
LAM = V('lam')


def phases(s=''):
    return tuple(V('q_' + k + s) for k in PH)


def rate(n, var='lam'):
    """derivative with respect to a variable"""
    return Sym(D.diff(lift(n), {var: X.const(1)}))


def phase_samples(m, n=2, span=9):
    out = []
    for s in m.samples:
        for _ in range(n):
            out.append(dict(s, q_t=q(m.rnd, -5, 5), q_phi=q(m.rnd, -5, 5), q_r=q(m.rnd, -span, span), q_theta=q(m.rnd, -span, span), lam=q(m.rnd, -2, 2)))
    return out


def elliptic(n, names=('sn', 'cn')):
    """the (argument, parameter) pairs of the Jacobi functions in an expression"""
    out = []
    for k in X.walk([lift(n)]):
        if k.kind == 'f' and k.args[0] in names:
            if k.args[1:] not in out:
                out.append(k.args[1:])
    return out


def sign_condition(j, name, value, want):
    """value and want have the same sign wherever want is not zero"""
    j.true(name, le(0, value * want))


def same_sign(a, b):
    """condition: a and b have the same sign"""
    a, b = (v if isinstance(v, X.Node) else lift(v) for v in (a, b))
    z = X.const(0)
    return X.cor(X.cand(X.lt(z, a), X.lt(z, b)), X.cand(X.lt(a, z), X.lt(b, z)), X.cand(X.eq(a, z), X.eq(b, z)))


def jacobi_axioms(j, exprs, phases):
    """sn(u|m), cn(u|m) have the signs of sin and cos of pi u / (2 K(m)); phases: the values pi u/(2K) the pairs are matched with"""
    for u, m in {p: 1 for e in exprs for p in elliptic(e)}:
        sn, cn = X.fn('sn', u, m), X.fn('cn', u, m)
        for ph in phases:
            # matched by value: u = 2 K(m) ph / pi
            d = X.sub(X.mul(u, X.pi()), X.mul(X.const(2), X.fn('K', m), lift(ph)))
            if j.ex.equal(d, X.const(0)):
                j.ex.assume(same_sign(sn, X.fn('sin', lift(ph))))
                j.ex.assume(same_sign(cn, X.fn('cos', lift(ph))))
                break
