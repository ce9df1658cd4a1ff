"""Reference formulas for Kerr geodesics, written from the textbook definitions (no code shared with the repository)."""
import math


def delta(r, a):
    return r * r - 2 * r + a * a


def R(r, a, E, L, Q):
    return (E * (r * r + a * a) - a * L) ** 2 - delta(r, a) * (r * r + (a * E - L) ** 2 + Q)


def Theta(ct2, a, E, L, Q):
    """(d theta / d lambda)^2 with ct2 = cos^2 theta < 1"""
    return Q - ct2 * (a * a * (1 - E * E) + L * L / (1 - ct2))


def dt(r, ct2, a, E, L):
    return E * ((r * r + a * a) ** 2 / delta(r, a) - a * a * (1 - ct2)) + a * L * (1 - (r * r + a * a) / delta(r, a))


def dphi(r, ct2, a, E, L):
    return L / (1 - ct2) + a * E * ((r * r + a * a) / delta(r, a) - 1) - a * a * L / delta(r, a)


def _coef(r, a, z2):
    """R = f E^2 - 2 g E L - h L^2 - d once Q = z2 (a^2 (1-E^2) + L^2/(1-z2)) is put in"""
    D = delta(r, a)
    f = (r * r + a * a) ** 2 - D * (a * a - a * a * z2)
    g = a * (r * r + a * a) - D * a
    h = -(a * a) + D * (1 + z2 / (1 - z2))
    d = D * (r * r + a * a * z2)
    return f, g, h, d


def _dcoef(r, a, z2):
    D, D1 = delta(r, a), 2 * r - 2
    f = 4 * r * (r * r + a * a) - D1 * (a * a - a * a * z2)
    g = 2 * a * r - D1 * a
    h = D1 * (1 + z2 / (1 - z2))
    d = D1 * (r * r + a * a * z2) + D * 2 * r
    return f, g, h, d


def constants(a, p, e, x, sqrt=math.sqrt):
    """(E, L, Q) of the bound orbit with turning points p/(1-+e); 0 <= a < 1"""
    z2 = 1 - x * x
    if e == 1:
        r2 = p / 2
        E = 1
        if x == 0:
            # R(r2) = 0 with L = 0, E = 1: linear in Q
            D = delta(r2, a)
            Q = (r2 * r2 + a * a) ** 2 / D - r2 * r2 - a * a
            return 1, 0, Q
        f, g, h, d = _coef(r2, a, z2)
        # h L^2 + 2 g L - (f - d) = 0
        s = 1 if x > 0 else -1
        L = (-g + s * sqrt(g * g + h * (f - d))) / h
        return 1, L, z2 * L * L / (x * x)
    if x == 0:
        def eq(r):      # A E^2 - B Q = C with L = 0
            D = delta(r, a)
            return (r * r + a * a) ** 2 - D * a * a, D, D * r * r

        def deq(r):
            D, D1 = delta(r, a), 2 * r - 2
            return 4 * r * (r * r + a * a) - D1 * a * a, D1, D1 * r * r + D * 2 * r
        A1, B1, C1 = eq(p / (1 - e))
        A2, B2, C2 = eq(p / (1 + e)) if e != 0 else deq(p)
        E2 = (C1 * B2 - C2 * B1) / (A1 * B2 - A2 * B1)
        Q = (A1 * E2 - C1) / B1
        return sqrt(E2), 0, Q
    r1 = p / (1 - e)
    f1, g1, h1, d1 = _coef(r1, a, z2)
    f2, g2, h2, d2 = _coef(p / (1 + e), a, z2) if e != 0 else _dcoef(p, a, z2)
    # y = L/E
    A, B, C = -(d2 * h1 - d1 * h2), -(d2 * g1 - d1 * g2), d2 * f1 - d1 * f2
    disc = B * B - A * C
    if disc < 0 and disc > -1e-12 * (B * B + abs(A * C)):
        disc = 0 * disc
    s = sqrt(disc)
    best = None
    for sg in (1, -1):
        if abs(A) < 1e-300:
            y = -C / (2 * B)
        else:
            den = -B - sg * s
            y = C / den if abs(den) > abs(-B + sg * s) else (-B + sg * s) / A
        if y * x > 0:
            q = f1 - 2 * g1 * y - h1 * y * y
            if q > 0 and d1 / q > 0:
                E2 = d1 / q
                if best is None or E2 < best[0]:
                    best = (E2, y)
    if best is None:
        raise ValueError('no bound orbit')
    E = sqrt(best[0])
    L = best[1] * E
    return E, L, z2 * (a * a * (1 - E * E) + L * L / (x * x))


def roots34(a, p, e, E, Q, sqrt=math.sqrt):
    """remaining radial roots r3 >= r4 of a stable orbit, 0 <= e < 1"""
    r1, r2 = p / (1 - e), p / (1 + e)
    S = 2 / (1 - E * E) - r1 - r2
    P = a * a * Q / ((1 - E * E) * r1 * r2)
    r3 = (S + sqrt(max(S * S - 4 * P, 0))) / 2
    return r3, (P / r3 if r3 else 0)


def r3_of(a, p, e, x):
    E, L, Q = constants(a, p, e, x)
    if e == 1:
        # cubic 2 r^3 - (L^2+Q+a^2(1-1)..): R = 2 r^3 + c2 r^2 + c1 r + c0, one root p/2
        c2 = a * a - L * L - Q - a * a
        c1 = 2 * ((a - L) ** 2 + Q)
        c0 = -a * a * Q
        r2 = p / 2
        # divide by (r - r2): 2 r^2 + b r + c
        b = c2 + 2 * r2
        c = c1 + b * r2
        disc = b * b - 8 * c
        if disc < 0:
            raise ValueError('complex')
        return (-b + math.sqrt(disc)) / 4
    return roots34(a, p, e, E, Q)[0]


_sep = {}


def separatrix(a, e, x):
    """largest p where the inner turning point meets the next root (bisection on the sign of r2 - r3)"""
    a, e, x = float(a), float(e), float(x)
    if a == 0:
        return 6 + 2 * e
    k = (a, e, x)
    if k in _sep:
        return _sep[k]

    def stable(p):
        try:
            E, L, Q = constants(a, p, e, x)
            if not (0 < E and (E < 1 or e == 1)):
                return False
            return p / (1 + e) > r3_of(a, p, e, x)
        except (ValueError, ZeroDivisionError):
            return False
    hi = 12.5
    lo = hi
    step = 0.05
    # walk down until the orbit stops being stable, then bisect
    while stable(lo):
        hi = lo
        lo -= step
        if lo < 1:
            break
    for _ in range(60):
        m = (lo + hi) / 2
        if stable(m):
            hi = m
        else:
            lo = m
    _sep[k] = hi
    return hi


def metric(a, r, theta):
    s2, c2 = math.sin(theta) ** 2, math.cos(theta) ** 2
    S, D = r * r + a * a * c2, r * r - 2 * r + a * a
    g = [[0.0] * 4 for _ in range(4)]
    g[0][0] = -1 + 2 * r / S
    g[0][3] = g[3][0] = -2 * a * r * s2 / S
    g[1][1] = S / D
    g[2][2] = S
    g[3][3] = s2 * (r * r + a * a) + 2 * a * a * r * s2 * s2 / S
    return g
