"""Signs of polynomials on boxes: exact Bernstein coefficients, whose signs the solver combines.

On the unit box every Bernstein basis polynomial is non-negative and they sum to one, so a polynomial
with non-negative coefficients is non-negative; otherwise the box is halved."""
from fractions import Fraction as F
from math import comb
import numpy as np
import z3
from . import smt


def tensor(poly, vs, box):
    """poly: dict of exponent tuples (over vs) -> Fraction; box: (lo, hi) per variable"""
    deg = [max([m[k] for m in poly] or [0]) for k in range(len(vs))]
    T = np.full([d + 1 for d in deg], F(0), dtype=object)
    for m, c in poly.items():
        T[tuple(m)] += F(int(c.numerator), int(c.denominator))
    for ax, (d, (lo, hi)) in enumerate(zip(deg, box)):
        lo, hi = F(lo), F(hi)
        w = hi - lo
        M = np.full((d + 1, d + 1), F(0), dtype=object)
        B = np.full((d + 1, d + 1), F(0), dtype=object)
        for k in range(d + 1):
            for i in range(k + 1):
                M[i, k] = comb(k, i) * lo ** (k - i) * w ** i
                B[k, i] = F(comb(k, i), comb(d, i))
        T = np.moveaxis(np.tensordot(B.dot(M), T, axes=(1, ax)), 0, ax)
    return T


def halves(T, ax):
    T = np.moveaxis(T, ax, 0)
    L, R, C = [T[0]], [T[-1]], T
    for _ in range(len(T) - 1):
        C = (C[:-1] + C[1:]) / 2
        L.append(C[0])
        R.append(C[-1])
    return np.moveaxis(np.array(L, dtype=object), 0, ax), np.moveaxis(np.array(R[::-1], dtype=object), 0, ax)


def boxes(T, depth=14, limit=300):
    """-> list of coefficient tensors of sub-boxes that are all non-negative, or None"""
    st, out, n = [(T, 0)], [], 0
    while st:
        T, d = st.pop()
        n += 1
        if min(T.flat) >= 0:
            out.append(T)
            continue
        if min(T[tuple(-(b >> k & 1) for k in range(T.ndim))] for b in range(2 ** T.ndim)) < 0 or d >= depth or n > limit:
            return None
        ax = max(range(T.ndim), key=lambda k: max(abs(np.diff(T, axis=k)).flat, default=0) if T.shape[k] > 1 else -1)
        st += [(t, d + 1) for t in halves(T, ax)]
    return out


def nonneg(poly, vs, box, sign=1):
    """is sign * poly >= 0 on the box -> (verdict, description)"""
    if sign < 0:
        poly = {m: -c for m, c in poly.items()}
    T = tensor(poly, vs, box)
    bs = boxes(T)
    if bs is None:
        return False, 'no sign found on the box'
    n = 0
    for b in bs:
        vals = sorted(set(b.flat))
        # one variable per distinct coefficient: the sum of the basis polynomials that carry it
        B = [z3.Real('B%d' % k) for k in range(len(vals))]
        r, _ = smt.check([v >= 0 for v in B] + [z3.Sum(B) == 1, z3.Sum([z3.Q(v.numerator, v.denominator) * x for v, x in zip(vals, B)]) < 0], 10)
        if r != 'unsat':
            return False, 'z3 ' + r
        n += len(vals)
    return True, 'Bernstein form on %d boxes, %d coefficients, z3' % (len(bs), n)
