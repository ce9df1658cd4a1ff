"""Derivative of a node along a direction: dvars maps variable names to nodes (missing variables are constant).

Elliptic functions are differentiated with the standard rules (DLMF 19, 22); complete integrals and moduli must
be constant along the direction, otherwise Unsupported is raised."""
from fractions import Fraction
from . import expr as X
from .expr import Unsupported, add, sub, mul, div, scale, neg, const, power, fn

ONE, ZERO = const(1), const(0)


def diff(root, dvars):
    memo = {}
    for n in X.walk([root]):
        memo[n] = _d(n, memo, dvars)
    return memo[root]


def _const(n, memo):
    if memo[n] is not ZERO and not (memo[n].kind == 'c' and memo[n].args == 0):
        raise Unsupported('derivative with respect to a modulus or characteristic')


def _z(n):
    return n.kind == 'c' and n.args == 0


def _d(n, memo, dv):
    if n.kind == 'c':
        return const(0)
    if n.kind == 'v':
        return dv.get(n.args, const(0))
    if n.kind == 'a':
        return add(*[scale(c, memo[t]) for t, c in n.args[1]])
    if n.kind == 'm':
        out = []
        for i, (b, e) in enumerate(n.args):
            if _z(memo[b]):
                continue
            out.append(mul(const(e), X._powprod([(c, k if j != i else k - 1) for j, (c, k) in enumerate(n.args)]), memo[b]))
        return add(*out) if out else const(0)
    f = n.args[0]
    a = n.args[1:]
    if all(_z(memo[x]) for x in a):
        return const(0)
    x = a[0]
    dx = memo[x]
    if f == 'sqrt':
        return div(scale(Fraction(1, 2), dx), n)
    if f == 'abs':
        return mul(fn('sign', x), dx)
    if f in ('sign', 'floor'):
        return const(0)
    if f in ('iflt', 'ifle', 'ifeq'):      # away from the points where the condition changes
        return memo[a[1]] if memo[a[1]] is memo[a[2]] else fn(f, a[0], memo[a[1]], memo[a[2]])
    if f == 'mod':
        _const(a[1], memo)
        return const(0) if x.kind == 'f' and x.args[0] == 'floor' else dx
    if f == 'sin':
        return mul(fn('cos', x), dx)
    if f == 'cos':
        return neg(mul(fn('sin', x), dx))
    if f == 'arcsin':
        return div(dx, fn('sqrt', sub(ONE, power(x, 2))))
    if f == 'arccos':
        return neg(div(dx, fn('sqrt', sub(ONE, power(x, 2)))))
    if f == 'arctan':
        return div(dx, add(ONE, power(x, 2)))
    if f == 'arctan2':
        y, dy = a[1], memo[a[1]]
        return div(sub(mul(y, dx), mul(x, dy)), add(power(x, 2), power(y, 2)))
    if f == 'log':
        return div(dx, x)
    if f == 'exp':
        return mul(n, dx)
    if f in ('sn', 'cn', 'dn', 'am'):
        _const(a[1], memo)
        m = a[1]
        s, c, d = fn('sn', x, m), fn('cn', x, m), fn('dn', x, m)
        if f == 'am':
            return mul(d, dx)
        if f == 'sn':
            return mul(c, d, dx)
        if f == 'cn':
            return neg(mul(s, d, dx))
        return neg(mul(m, s, c, dx))
    if f in ('F', 'Einc'):
        _const(a[1], memo)
        if x.kind == 'f' and x.args[0] == 'am':
            s2 = power(fn('sn', x.args[1], x.args[2]), 2)
            if a[1] is x.args[2]:
                w = fn('dn', x.args[1], x.args[2])
                return div(dx, w) if f == 'F' else mul(dx, w)
        else:
            s2 = power(fn('sin', x), 2)
        w = fn('sqrt', sub(ONE, mul(a[1], s2)))
        return div(dx, w) if f == 'F' else mul(dx, w)
    if f in ('RF', 'RD', 'RJ'):
        return _carlson(n, memo)
    raise Unsupported('derivative of %s' % f)


def _carlson(n, memo):
    """R_F(x,y,1), R_D(x,y,1), R_J(x,y,1,p) with x=1-X, y=1-mX, p=1-nX: a one-parameter family in X.

    d/dX [ sqrt(X) R_F(1-X,1-mX,1) ] = 1 / (2 sqrt(X) sqrt(1-X) sqrt(1-mX)) and the corresponding identities
    for R_D and R_J give the derivatives; the pattern (linear dependence on one X) is checked."""
    f = n.args[0]
    a = n.args[1:]
    x, y, z = a[:3]
    if not (z.kind == 'c' and z.args == 1):
        # symmetric in x and y for R_F and in all three for R_J, but the code always passes 1 third
        raise Unsupported('derivative of %s without a unit third argument' % f)
    Xn = sub(ONE, x)                       # X = sin^2
    dX = neg(memo[x])
    if _z(dX):
        raise Unsupported('derivative of %s with constant first argument' % f)
    # y' = -m X' with 1-y = m X   <=>   (1-y) X' + X y' = 0; checked by the caller through `pattern`
    PATTERN.append((sub(ONE, y), memo[y], Xn, dX))
    rx, ry = fn('sqrt', x), fn('sqrt', y)
    if f == 'RF':
        # d/dX R_F = (1/(sqrt x sqrt y) - R_F) / (2X)
        return mul(div(sub(div(ONE, mul(rx, ry)), n), scale(2, Xn)), dX)
    if f == 'RD':
        # sin^3 R_D /3 = D(phi): d/dX R_D = (3/(sqrt x sqrt y) - 3 R_D) / (2X)
        return mul(div(sub(div(const(3), mul(rx, ry)), scale(3, n)), scale(2, Xn)), dX)
    p = a[3]
    PATTERN.append((sub(ONE, p), memo[p], Xn, dX))
    return mul(div(sub(div(const(3), mul(p, rx, ry)), scale(3, n)), scale(2, Xn)), dX)


PATTERN = []      # (u, du, X, dX): the rule used is valid only if u*dX == du_neg... checked with pattern_holds


def pattern_nodes():
    """expressions that must vanish for the Carlson rules used so far to be applicable"""
    out = [add(mul(u, dX), mul(X_, dw)) for u, dw, X_, dX in PATTERN]
    return out
