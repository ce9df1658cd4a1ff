"""Property-level oracles on the real package (floating point). Each returns (violated, detail)."""
import math
import os
import sys
import numpy as np
import kerr
from fractions import Fraction


class Skip(Exception):
    """the point is outside the domain of the property"""


def rel(a, b, floor=1e-300):
    return abs(a - b) / max(abs(a), abs(b), floor)


# ------------------------------------------------------------------------------------------------ C20
_C, _G, _S = 299792458.0, 6.6743e-11, 1.98847e30
_LEN, _TIME, _EN, _ANG = _G * _S / _C ** 2, _G * _S / _C ** 3, _S * _C ** 2, _G * _S ** 2 / _C
UNITS = {
    'distance_in_meters': (_LEN, 1), 'distance_in_cm': (_LEN * 100, 1), 'distance_in_km': (_LEN / 1000, 1),
    'distance_in_lightyears': (_LEN / 9.4607304725808e15, 1), 'distance_in_au': (_LEN / 1.495978707e11, 1),
    'time_in_seconds': (_TIME, 1), 'time2_in_seconds2': (_TIME ** 2, 2), 'time_in_days': (_TIME / 86400, 1),
    'energy_in_joules': (_EN, 1), 'energy_in_ergs': (_EN * 1e7, 1),
    'angular_momentum_in_mks': (_ANG, 2), 'angular_momentum_in_cgs': (_ANG * 1e7, 2),
    'carter_constant_in_mks': (_ANG ** 2, 4), 'carter_constant_in_cgs': (_ANG ** 2 * 1e14, 4),
    'frequency_in_Hz': (1 / _TIME, -1), 'frequency_in_mHz': (1000 / _TIME, -1),
}
RATIOS = {'distance_in_cm:distance_in_meters': 100, 'distance_in_km:distance_in_meters': 1e-3, 'time_in_days:time_in_seconds': 1 / 86400,
          'energy_in_ergs:energy_in_joules': 1e7, 'angular_momentum_in_cgs:angular_momentum_in_mks': 1e7,
          'carter_constant_in_cgs:carter_constant_in_mks': 1e14, 'frequency_in_mHz:frequency_in_Hz': 1000}


def C20(scope, i):
    import kerrgeopy.units as U
    v, M = i['v'], i['M']
    if scope.startswith('ratio:'):
        hi, lo = scope[6:].split(':')
        a, b = getattr(U, hi)(v, M), getattr(U, lo)(v, M) * RATIOS[scope[6:]]
        return rel(a, b) > 1e-9, '%s=%r, from %s: %r' % (hi, a, lo, b)
    if scope == 'mass_in_kg':
        return rel(U.mass_in_kg(M), M * _S) > 1.001e-3, 'mass_in_kg(%r)=%r' % (M, U.mass_in_kg(M))
    k, n = UNITS[scope]
    f = getattr(U, scope)
    a, b, c = f(v, M), v * k * M ** n, v * M ** n * f(1.0, 1.0)
    return rel(a, b) > 1.001e-3 or rel(a, c) > 1e-9, '%s(%r,%r)=%r, reference %r, by proportionality %r' % (scope, v, M, a, b, c)


# ------------------------------------------------------------------------------------------------ C13
def C13(scope, i):
    from kerrgeopy.spacetime import KerrSpacetime
    a, r, th = i['a'], i['r'], i['theta']
    s = KerrSpacetime(a)
    g = kerr.metric(a, r, th)
    if abs(r * r - 2 * r + a * a) < 1e-6 or r * r + a * a * math.cos(th) ** 2 < 1e-6:
        raise Skip('singular')
    m = np.asarray(s.metric(i['t'], r, th, i['phi']), dtype=float)
    if m.shape != (4, 4):
        return True, 'metric has shape %r' % (m.shape,)
    for x in range(4):
        for y in range(4):
            if abs(m[x, y] - g[x][y]) > 1e-8 * (1 + abs(g[x][y])):
                return True, 'g[%d,%d]=%r, expected %r' % (x, y, m[x, y], g[x][y])
    v = [i['v%d' % k] for k in range(4)]
    want = sum(v[x] * g[x][y] * v[y] for x in range(4) for y in range(4))
    scale = 1 + sum(abs(v[x] * g[x][y] * v[y]) for x in range(4) for y in range(4))
    for vv in (v, np.array(v), tuple(v)):
        n = s.norm(i['t'], r, th, i['phi'], vv)
        if not abs(n - want) <= 1e-8 * scale:
            return True, 'norm=%r, expected %r' % (n, want)
    w = math.sqrt(max(0, 1 - a * a))
    if abs(s.inner_horizon - (1 - w)) > 1e-9 or abs(s.outer_horizon - (1 + w)) > 1e-9:
        return True, 'horizons %r %r' % (s.inner_horizon, s.outer_horizon)
    return False, 'ok'


# ------------------------------------------------------------------------------------------------ C14
def C14(scope, i):
    from kerrgeopy.initial_conditions import constants_from_initial_conditions
    a, r, th = i['a'], i['r'], i['theta']
    g = kerr.metric(a, r, th)
    u = [i['dt'], i['dr'], i['dtheta'], i['dphi']]
    n = sum(u[x] * g[x][y] * u[y] for x in range(4) for y in range(4))
    sc = sum(abs(u[x] * g[x][y] * u[y]) for x in range(4) for y in range(4))
    if abs(n + 1) > 1e-6 * sc or abs(math.sin(th)) < 1e-4 or abs(kerr.delta(r, a)) < 1e-6:
        raise Skip('not a unit timelike velocity at a regular point')
    E0 = -sum(g[0][y] * u[y] for y in range(4))
    L0 = sum(g[3][y] * u[y] for y in range(4))
    c2 = math.cos(th) ** 2
    Q0 = (g[2][2] * u[2]) ** 2 + c2 * (a * a * (1 - E0 * E0) + L0 * L0 / (1 - c2))
    E, L, Q = constants_from_initial_conditions(a, (i['t'], r, th, i['phi']), tuple(u))
    scale = 1 + sc + abs(E0) + abs(L0) + abs(Q0)
    bad = [(k, x, y) for k, x, y in (('E', E, E0), ('L', L, L0), ('Q', Q, Q0)) if not abs(x - y) <= 1e-6 * scale ** 2]
    return bool(bad), 'got/expected %r' % (bad or (E, L, Q),)


# ------------------------------------------------------------------------------------------------ C22
def C22(scope, i):
    from kerrgeopy.orbit import Orbit
    a, el, az = i['a'], math.radians(i['elevation']), math.radians(i['azimuth'])
    n = 0
    pts = []
    while 'x%d' % n in i:
        pts.append([i['%s%d' % (c, n)] for c in 'xyz'])
        n += 1
    o = object.__new__(Orbit)
    o.a = a
    out = np.asarray(o.is_visible(np.array(pts), i['elevation'], i['azimuth']))
    if out.shape != (n,):
        return True, 'shape %r for %d points' % (out.shape, n)
    rh = 1 + math.sqrt(1 - a * a)
    nv = [math.cos(el) * math.cos(az), math.cos(el) * math.sin(az), math.sin(el)]
    for k, p in enumerate(pts):
        d = sum(x * y for x, y in zip(p, nv))
        rr = math.sqrt(sum(x * x for x in p))
        pr = math.sqrt(sum((x - d * y) ** 2 for x, y in zip(p, nv)))
        if min(abs(rr - rh), abs(d), abs(pr - rh)) < 1e-9:
            continue
        want = rr > rh and (d >= 0 or pr > rh)
        if bool(out[k]) != want:
            return True, 'point %d %r: %r, expected %r' % (k, p, bool(out[k]), want)
    return False, 'ok'


# ------------------------------------------------------------------------------------------------ C23
def C23(scope, i):
    from kerrgeopy.orbit import Orbit
    a, lam, h = i['a'], i['lam'], i['dx']
    if scope.startswith('norm'):
        from kerrgeopy.spacetime import KerrSpacetime
        fs = [(lambda x, c=c: i[c + '6'] * x ** 6 + (20 if c == 'r' else x)) for c in 'trhp']
        if fs[1](lam) < 2.1 or abs(h) < 1e-3 or not abs(a) < 1:
            raise Skip('point')
        kw = {} if 'default' in scope else {'dx': h}
        if 'phases' in scope:
            kw['initial_phases'] = (5, 6, 7, 8)
        o = object.__new__(Orbit)
        o.a, o.initial_phases, o.E, o.L, o.Q = a, (1, 2, 3, 4), 1.0, 1.0, 1.0
        o.trajectory = lambda initial_phases=None, *x, **k: fs if tuple(o.initial_phases if initial_phases is None else initial_phases) == tuple(kw.get('initial_phases', (1, 2, 3, 4))) else [lambda x: 7.0] * 4
        n = o._numerical_four_velocity_norm(**kw)(lam)
        u = [f(lam) for f in o.numerical_four_velocity(**kw)]
        g = KerrSpacetime(a).metric(*[f(lam) for f in fs])
        terms = [u[x] * g[x][y] * u[y] for x in range(4) for y in range(4)]
        return not abs(n - sum(terms)) <= 1e-9 * sum(map(abs, terms)), 'norm %r, expected %r' % (n, sum(terms))
    if scope == 'default step':
        h = 1e-6
    if abs(h) < 1e-7:
        raise Skip('rounding dominates')
    co = {c: [i['%s%d' % (c, k)] for k in range(5)] for c in 'trhp'}
    f = {c: (lambda x, c=c: sum(co[c][k] * x ** k for k in range(5))) for c in co}
    o = object.__new__(Orbit)
    o.a, o.initial_phases = a, (1, 2, 3, 4)
    seen = []

    def tr(initial_phases=None, *x, **k):
        seen.append(o.initial_phases if initial_phases is None else initial_phases)
        return tuple(f[c] for c in 'trhp')
    o.trajectory = tr
    kw = {} if scope == 'default step' else {'dx': h}
    if 'phases' in scope:
        kw['initial_phases'] = (5, 6, 7, 8)
    us = o.numerical_four_velocity(**kw)
    Sg = f['r'](lam) ** 2 + a * a * math.cos(f['h'](lam)) ** 2
    want_ph = kw.get('initial_phases', o.initial_phases)
    if not seen or any(tuple(s) != tuple(want_ph) for s in seen):
        return True, 'trajectory computed for phases %r' % seen
    for c, u in zip('trhp', us):
        d = sum(k * co[c][k] * lam ** (k - 1) for k in range(1, 5)) / Sg
        mag = sum(abs(co[c][k]) * (abs(lam) + 2 * abs(h)) ** k for k in range(5))
        if not abs(u(lam) - d) <= 1e-9 * (1 + abs(d)) + 1e-13 * mag / abs(h) / Sg * 10:
            return True, 'u_%s=%r, derivative %r' % (c, u(lam), d)
    if hasattr(Orbit, '_numerical_four_velocity_norm'):
        del seen[:]
        o.E = o.L = o.Q = 1.0
        n = o._numerical_four_velocity_norm(**kw)(lam)
        if not seen or any(tuple(s) != tuple(want_ph) for s in seen):
            return True, 'norm: trajectory computed for phases %r' % seen
        u = [w(lam) for w in us]
        r, th = f['r'](lam), f['h'](lam)
        s2, D = math.sin(th) ** 2, r * r - 2 * r + a * a
        g = [(2 * r / Sg - 1) * u[0] ** 2, -4 * a * r * s2 / Sg * u[0] * u[3], s2 * (r * r + a * a + 2 * a * a * r * s2 / Sg) * u[3] ** 2, Sg / D * u[1] ** 2, Sg * u[2] ** 2]
        if not abs(n - sum(g)) <= 1e-9 * sum(map(abs, g)):
            return True, 'norm %r, expected %r' % (n, sum(g))
    return False, 'ok'

# ------------------------------------------------------------------------------------------------ C02
def _params_ok(a, p, e, x, strict):
    """(documented domain?, is the point the separatrix itself?)"""
    if not (abs(a) < 1 and 0 <= e <= 1 and abs(x) <= 1):
        return False, False
    if strict and (x == 0 or e == 1):
        return False, False
    if p is None:
        return True, False
    ps = kerr.separatrix(abs(a), e, -x if a < 0 else x)
    if abs(p - ps) < 1e-6:
        return None, True
    return p > ps, False


def C02(scope, i):
    import kerrgeopy.constants as C
    import kerrgeopy.frequencies as F
    import kerrgeopy.stable as S
    a, p, e, x = (i[k] for k in 'apex')
    name = scope.split(' at a=0')[0]
    base = name.split(' given')[0]
    s = (a, p, e, x)
    strict = base not in ('energy', 'angular_momentum', 'carter_constant', 'constants_of_motion', 'separatrix')
    for k, b in ((a, (0, 1, -1)), (e, (0, 1)), (x, (0, 1, -1))):
        if any(k != t and abs(k - t) < 1e-9 for t in b):
            raise Skip('within rounding of a boundary')
    want, edge = _params_ok(a, None if base == 'separatrix' else p, e, x, strict)
    if edge:
        s = (a, C.separatrix(abs(a), e, -x if a < 0 else x), e, x)
        want = False
    if base == 'separatrix':
        f = lambda: C.separatrix(a, e, x)
    elif ' given' in name:
        if not abs(a) < 1 or not 0 <= e <= 1 or not abs(x) <= 1 or want is False:
            E, L, Q = 0.9, 3.0, 1.0
        else:
            E, L, Q = kerr.constants(abs(a), p, e, -x if a < 0 else x)
        if base == 'angular_momentum':
            f = lambda: C.angular_momentum(*s, E)
        elif base == 'carter_constant':
            f = lambda: C.carter_constant(*s, E, L)
        else:
            f = lambda: getattr(F, base)(*s, (E, L, Q))
    elif base == 'StableOrbit':
        f = lambda: S.StableOrbit(*s)
    elif base == 'stable_trajectory':
        f = lambda: S.stable_trajectory(*s)
    else:
        f = lambda: getattr(C if hasattr(C, base) else F, base)(*s)
    try:
        v = f()
        got = True
    except ValueError as err:
        v, got = err, False
    except Exception as err:
        return True, '%s%r raised %s: %s' % (base, s, type(err).__name__, err)
    return got != want, '%s%r: %s, expected %s' % (base, s, 'accepted' if got else 'rejected (%s)' % v, 'accepted' if want else 'ValueError')


# ------------------------------------------------------------------------------------------------ C03
def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    eq = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b))))
    return bool(np.all(eq))


def stable_domain(i, margin=1e-3, marg=False, polar=False):
    a, p, e, x = (i[k] for k in 'apex')
    if not (0 <= a < 1 and 0 <= e <= 1 and abs(x) <= 1) or (not marg and e == 1) or (not polar and x == 0):
        raise Skip('parameters')
    if any(v != 0 and abs(v) < 1e-4 for v in (a, e, x, 1 - abs(x), 1 - e, 1 - a)):
        raise Skip('within rounding of a special case')
    if p <= kerr.separatrix(a, e, x) + margin or p > 1e4:
        raise Skip('not stable')
    return a, p, e, x


def C03(scope, i):
    import kerrgeopy.constants as C
    import kerrgeopy.frequencies as F
    import kerrgeopy.stable as S
    a, p, e, x = stable_domain(i, marg=True, polar=True)
    part = scope.split(': ')[1]
    lam = i['lam']
    ph = tuple(i['q_' + k] for k in ('t', 'r', 'theta', 'phi'))
    one, two = (-a, p, e, -x), (a, p, e, x)
    prs = []
    if part == 'constants':
        for n in ('energy', 'angular_momentum', 'carter_constant', 'constants_of_motion', 'stable_radial_roots', 'stable_polar_roots'):
            if n == 'stable_polar_roots' and x == 0 or n.startswith('stable_') and e == 1:
                continue
            f = getattr(C, n)
            prs.append((n, f(*one), f(*two)))
        E, L, Q = C.constants_of_motion(*two)
        prs.append(('angular_momentum given E', C.angular_momentum(*one, E), C.angular_momentum(*two, E)))
        prs.append(('carter_constant given E, L', C.carter_constant(*one, E, L), C.carter_constant(*two, E, L)))
    elif part == 'frequencies':
        for n in ('r_frequency', 'theta_frequency', 'phi_frequency', 'gamma', 'mino_frequencies', 'fundamental_frequencies'):
            f = getattr(F, n)
            prs.append((n, f(*one), f(*two)))
        k = C.constants_of_motion(*two)
        for n in ('r_frequency', 'theta_frequency', 'phi_frequency', 'gamma'):
            f = getattr(F, n)
            prs.append((n + ' given constants', f(*one, k), f(*two, k)))
    elif part == 'trajectory':
        for n, kw in (('trajectory', (ph,)), ('default trajectory', ())):
            g, w = S.stable_trajectory(*one, *kw), S.stable_trajectory(*two, *kw)
            prs += [(n, [f(lam) for f in g], [f(lam) for f in w])]
    else:
        g, w = S.StableOrbit(*one, ph, 10.0, 1.0), S.StableOrbit(*two, ph, 10.0, 1.0)
        for n in ('a', 'p', 'e', 'x', 'E', 'L', 'Q', 'upsilon_r', 'upsilon_theta', 'upsilon_phi', 'gamma', 'omega_r', 'omega_theta', 'omega_phi',
                  'stable', 'initial_phases', 'M', 'mu', 'initial_position', 'initial_velocity'):
            prs.append((n, getattr(g, n), getattr(w, n)))
        for n in ('trajectory', 'trajectory_deltas', 'four_velocity'):
            prs.append((n, [f(lam) for f in getattr(g, n)()], [f(lam) for f in getattr(w, n)()]))
        for n in ('mino_frequencies', 'fundamental_frequencies', 'constants_of_motion'):
            prs.append((n, getattr(g, n)(), getattr(w, n)()))
    bad = [(n, u, v) for n, u, v in prs if not close(u, v)]
    return bool(bad), 'a=%r p=%r e=%r x=%r: %s' % (a, p, e, x, bad[:2] or 'ok')


# ------------------------------------------------------------------------------------------------ C18
def ic_of(i):
    pos = tuple(i[k] for k in ('t', 'r', 'theta', 'phi'))
    vel = tuple(i[k] for k in ('dt', 'dr', 'dtheta', 'dphi'))
    a = i['a']
    if not (0 <= a < 1 and 0.01 < pos[2] < math.pi - 0.01) or abs(kerr.delta(pos[1], a)) < 1e-6 or pos[1] <= 0:
        raise Skip('position')
    g = kerr.metric(a, pos[1], pos[2])
    n = sum(vel[x] * g[x][y] * vel[y] for x in range(4) for y in range(4))
    E = -sum(g[0][y] * vel[y] for y in range(4))
    L = sum(g[3][y] * vel[y] for y in range(4))
    c2 = math.cos(pos[2]) ** 2
    Q = (g[2][2] * vel[2]) ** 2 + c2 * (a * a * (1 - E * E) + L * L / (1 - c2))
    return a, pos, vel, n, (E, L, Q)


def poly_roots(a, E, L, Q):
    """radial roots with extra precision: (real increasing, complex), and whether they are well separated"""
    import mpmath as mp
    mp.mp.dps = 40
    a, E, L, Q = (mp.mpf(v) for v in (a, E, L, Q))
    cs = [E * E - 1, 2, a * a * (E * E - 1) - L * L - Q, 2 * ((a * E - L) ** 2 + Q), -a * a * Q]
    while cs[-1] == 0:
        cs.pop()
    zeros = 5 - len(cs)
    rs = list(mp.polyroots(cs, maxsteps=500, extraprec=300)) + [mp.mpf(0)] * zeros
    re = sorted(float(mp.re(r)) for r in rs if abs(mp.im(r)) < 1e-12)
    im = [complex(r) for r in rs if abs(mp.im(r)) >= 1e-12]
    sep = min([abs(x - y) for k, x in enumerate(rs) for y in rs[k + 1:]] + [mp.mpf(9)])
    return re, im, float(sep)


def classify(a, r0, k, tol=1e-4):
    """'stable' | 'plunging' | 'forbidden' | None when within rounding of a boundary"""
    re, im, sep = poly_roots(a, *k)
    rm = 1 - math.sqrt(1 - a * a)
    if len(im) == 4:
        return 'forbidden'
    if len(im) == 2:
        if abs(im[0].imag) < 1e-5:
            return None
        return 'plunging'
    if sep < 1e-6 and a > 0 or any(abs(abs(r0 - x) - tol) < 1e-8 for x in re) or any(abs(x - rm) < 1e-8 for x in re if a > 0):
        return None
    # allowed regions: between the two largest roots, and between the next two
    for hi, lo in ((3, 2), (1, 0)):
        if re[lo] - tol <= r0 <= re[hi] + tol:
            return 'stable' if re[lo] > rm and hi == 3 else 'plunging'
    return 'forbidden'


def C18(scope, i):
    from kerrgeopy.orbit import Orbit
    from kerrgeopy.plunge import PlungingOrbit
    if scope.startswith('PlungingOrbit'):
        a = i['a']
        try:
            o = PlungingOrbit(a, i['E'], i['L'], i['Q'], M=2.0)
        except ValueError as e:
            return a != 0, 'PlungingOrbit(%r, ...) raised %s' % (a, e)
        except Exception as e:
            if a == 0:
                return True, 'PlungingOrbit(0, ...) raised %s: %s' % (type(e).__name__, e)
            raise Skip('no orbit')
        bad = a == 0 or (o.a, o.E, o.L, o.Q, o.M) != (a, i['E'], i['L'], i['Q'], 2.0) or o.stable
        return bad, 'PlungingOrbit(%r, ...) carries %r' % (a, (o.a, o.E, o.L, o.Q, o.M, o.stable))
    a, pos, vel, n, k = ic_of(i)
    if abs(n) < 1e-9 or abs(abs(n + 1) - 1e-6) < 1e-9:
        raise Skip('within rounding of the tolerance')
    ok = n < 0 and abs(n + 1) <= 1e-6
    c = classify(a, pos[1], k) if ok else None
    if ok and (c is None or c == 'forbidden'):
        raise Skip('class')
    if ok and c == 'plunging' and a == 0:
        ok = False
    if ok and not k[0] < 1:
        raise Skip('not bound')
    try:
        o = Orbit(a, pos, vel, M=2.0, mu=0.5)
    except ValueError as e:
        return ok, 'norm %r, a=%r, %s: raised %s' % (n, a, c, e)
    except Exception as e:
        return True, 'norm %r, a=%r, %s: raised %s %s' % (n, a, c, type(e).__name__, e)
    if not ok:
        return True, 'norm %r, a=%r, %s: accepted' % (n, a, c)
    sc = 1 + sum(abs(v) for v in k)
    if not all(abs(x - y) <= 1e-6 * sc for x, y in zip((o.E, o.L, o.Q), k)):
        return True, 'constants %r, expected %r' % ((o.E, o.L, o.Q), k)
    if o.stable != (c == 'stable') or o.a != a or tuple(o.initial_position) != pos or tuple(o.initial_velocity) != vel or (o.M, o.mu) != (2.0, 0.5):
        return True, 'stable=%r (%s), a=%r, position %r, velocity %r, masses %r' % (o.stable, c, o.a, o.initial_position, o.initial_velocity, (o.M, o.mu))
    return False, 'ok'


# ------------------------------------------------------------------------------------------------ C19
_DU = {'natural': 1.0, 'mks': _LEN, 'cgs': _LEN * 100, 'km': _LEN / 1000, 'au': _LEN / 1.495978707e11}
_TU = {'natural': 1.0, 'mks': _TIME, 'cgs': _TIME, 'days': _TIME / 86400}


def _raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def unit_errors(o, o0, k, M, mu, lam, tr):
    """o(M, mu) -> orbit; compares everything unit dependent with the dimensionless values"""
    nat = [f(lam) for f in tr(None)]
    bad = []
    for d in _DU:
        for s in _TU:
            got = [f(lam) for f in tr(M, distance_units=d, time_units=s)]
            want = [nat[0] * (_TU[s] * M if s != 'natural' else 1), nat[1] * (_DU[d] * M if d != 'natural' else 1), nat[2], nat[3]]
            if not all(rel(x, y) < 2e-3 or abs(x - y) < 1e-9 or (np.isnan(x) and np.isnan(y)) for x, y in zip(got, want)):
                bad.append(('trajectory', d, s, got, want))
            if (d, s) != ('natural', 'natural') and not _raises(lambda: tr(None, distance_units=d, time_units=s)):
                bad.append(('trajectory', d, s, 'accepted without M'))
    E, L, Q = k
    if o0(None, None).constants_of_motion() != k and not close(o0(None, None).constants_of_motion(), k):
        bad.append(('constants', o0(None, None).constants_of_motion(), k))
    for u, ce, cl in (('mks', _EN, _ANG), ('cgs', _EN * 1e7, _ANG * 1e7)):
        got = o.constants_of_motion(u)
        want = (E * ce * mu, L * cl * M * mu, Q * (cl * M * mu) ** 2)
        if not all(rel(x, y) < 2e-3 or x == y == 0 or abs(y) < 1e-9 * max(abs(L * cl * M * mu), (cl * M * mu) ** 2) for x, y in zip(got, want)):
            bad.append(('constants', u, got, want))
        for mm in ((None, mu), (M, None), (None, None)):
            if not _raises(lambda: o0(*mm).constants_of_motion(u)):
                bad.append(('constants', u, 'accepted with masses', mm))
    for u in ('km', 'SI', '', 'mHz'):
        if not _raises(lambda: o.constants_of_motion(u)):
            bad.append(('constants', u, 'accepted'))
    return bad


def C19(scope, i):
    import kerrgeopy.frequencies as F
    from kerrgeopy.stable import StableOrbit, stable_trajectory
    from kerrgeopy.plunge import PlungingOrbit, plunging_trajectory
    from kerrgeopy.orbit import Orbit
    M, mu, lam = i['M'], i['mu'], i['lam']
    if not (1e-3 < M < 1e9 and 1e-6 < mu < 1e9):
        raise Skip('masses')
    ph = tuple(i['q_' + k] for k in ('t', 'r', 'theta', 'phi'))
    if scope.startswith('Orbit'):
        # a fixed orbit of the kind, the masses and times are the inputs
        if 'stable' in scope:
            s = StableOrbit(0.9, 8, 0.3, 0.7, (0, 1, 2, 0))
        elif 'real' in scope:
            s = PlungingOrbit(0.9, 0.956, 1.5, 3.5, (0, 3, 2, 0))
        else:
            s = PlungingOrbit(0.9, 0.94, 0.1, 12.0, (0, 1.5, 2, 0))
        a, pos, vel = s.a, tuple(map(float, s.initial_position)), tuple(map(float, s.initial_velocity))
        mk = lambda M_, mu_: Orbit(a, pos, vel, M_, mu_)
        bad = unit_errors(mk(M, mu), mk, mk(None, None).constants_of_motion(), M, mu, lam, lambda MM, **u: mk(MM, mu).trajectory(**u))
        return bool(bad), str(bad[:2] or 'ok')
    if 'Q' in i or scope.split()[0] in ('complex', 'outer', 'inner'):
        s = (i['a'], i['E'], i['L'], i.get('Q', 0.0))
        if not 0 < s[0] < 1 or not 0 < s[1] < 1 or s[3] < 0:
            raise Skip('constants')
        re, im, sep = poly_roots(*s)
        if sep < 1e-6 or len(im) == 4:
            raise Skip('roots')
        mk = lambda M_, mu_: PlungingOrbit(*s, ph, M_, mu_)
        bad = unit_errors(mk(M, mu), mk, s[1:], M, mu, lam, lambda MM, **u: plunging_trajectory(*s, ph, MM, **u))
        bad += unit_errors(mk(M, mu), mk, s[1:], M, mu, lam, lambda MM, **u: mk(MM, mu).trajectory(**u))
        return bool(bad), str(bad[:2] or 'ok')
    s = stable_domain(i)
    mk = lambda M_, mu_: StableOrbit(*s, ph, M_, mu_)
    o = mk(M, mu)
    bad = unit_errors(o, mk, (o.E, o.L, o.Q), M, mu, lam, lambda MM, **u: stable_trajectory(*s, ph, MM, **u))
    bad += unit_errors(o, mk, (o.E, o.L, o.Q), M, mu, lam, lambda MM, **u: mk(MM, mu).trajectory(**u))
    y = F.mino_frequencies(*s)
    om = [v / y[3] for v in y[:3]]
    T = _TIME * M
    for u in ('natural', 'mks', 'cgs', 'mHz'):
        for n, w in (('mino_frequencies', [v * T for v in y[:3]] + [y[3] * T * T]), ('fundamental_frequencies', [v / T * (1000 if u == 'mHz' else 1) for v in om])):
            if u == 'mHz' and n[0] == 'm':
                continue
            if u == 'natural':
                w = y if n[0] == 'm' else om
            got = getattr(mk(None if u == 'natural' else M, None), n)(u)
            if not all(rel(x, z) < 2e-3 for x, z in zip(got, w)):
                bad.append((n, u, got, w))
            if u != 'natural' and not _raises(lambda: getattr(mk(None, mu), n)(u)):
                bad.append((n, u, 'accepted without M'))
    for n in ('mino_frequencies', 'fundamental_frequencies'):
        for u in ('km', 'Hz', ''):
            if not _raises(lambda: getattr(o, n)(u)):
                bad.append((n, u, 'accepted'))
    return bool(bad), str(bad[:2] or 'ok')


# ------------------------------------------------------------------------------------------------ C01
def _R(r, a, E, L, Q):
    """radial potential, its derivative, and the size of the terms"""
    P, D, K = E * (r * r + a * a) - a * L, r * r - 2 * r + a * a, r * r + (a * E - L) ** 2 + Q
    sc = (E * (r * r + a * a)) ** 2 + (a * L) ** 2 + (r * r + 2 * r + a * a) * (abs(r * r) + (a * E - L) ** 2 + abs(Q))
    return P * P - D * K, 4 * r * E * P - (2 * r - 2) * K - D * 2 * r, sc


def C01(scope, i):
    import kerrgeopy.constants as C
    a, p, e, x = stable_domain(i, marg=True, polar=True)
    E, L, Q = C.constants_of_motion(a, p, e, x)
    bad = []
    # the real code's residual is below 1e-15 / (1-e)^2 relative to the size of the terms
    tol = min(1e-6, 3e-11 / (1 - e) ** 3) if e < 1 else 1e-9
    r2 = p / (1 + e)
    r1 = p / (1 - e) if e < 1 else None
    v, d, sc = _R(r2, a, E, L, Q)
    if not abs(v) < tol * sc:
        bad.append(('R at p/(1+e)', v, sc))
    if e == 0:
        if not abs(d) < 1e-8 * sc:
            bad.append(('derivative of R at p', d, sc))
    elif e < 1:
        v, d, sc = _R(r1, a, E, L, Q)
        if not abs(v) < tol * sc:
            bad.append(('R at p/(1-e)', v, sc))
    elif E != 1:
        bad.append(('E', E))
    if x == 0:
        if L != 0:
            bad.append(('L', L))
    else:
        w = (1 - x * x) * (a * a * (1 - E * E) + L * L / x / x)
        if not abs(Q - w) < 1e-8 * (1 + abs(w)):
            bad.append(('Q', Q, w))
        if not L * x > 0:
            bad.append(('sign of L', L))
    for n, f, w in (('E', lambda: C.energy(a, p, e, x), E), ('L', lambda: C.angular_momentum(a, p, e, x), L), ('L(E)', lambda: C.angular_momentum(a, p, e, x, E), L),
                    ('Q', lambda: C.carter_constant(a, p, e, x), Q), ('Q(E)', lambda: C.carter_constant(a, p, e, x, E), Q),
                    ('Q(L)', lambda: C.carter_constant(a, p, e, x, L=L), Q), ('Q(E,L)', lambda: C.carter_constant(a, p, e, x, E, L), Q)):
        if not close(f(), w):
            bad.append((n, f(), w))
    return bool(bad), str(bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C05
def plunge_domain(i, sep_min=1e-4, L0=True):
    """a, E, L, Q, kind, radial roots (mpmath accuracy) of a plunge with well separated roots"""
    s = (i['a'], i['E'], i['L'], i.get('Q', 0.0))
    if not 1e-3 < s[0] < 1 - 1e-4 or not 1e-3 < s[1] < 1 - 1e-4 or s[3] < 0 or 0 < s[3] < 1e-6:
        raise Skip('constants')
    if s[2] == 0 and L0 or 0 < abs(s[2]) < 1e-4:
        raise Skip('L')
    re, im, sep = poly_roots(*s)
    if sep < sep_min or len(re) not in (2, 4):
        raise Skip('roots')
    w = np.sqrt(1 - s[0] ** 2)
    if len(re) == 2:
        return s, 'complex', (re[0], re[1], im[0], im[1]), w
    if re[1] > 1 - w:
        if not (re[0] < 1 - w and re[1] > 1 + w):
            raise Skip('roots')
        return s, 'inner', (re[1], re[0], re[3], re[2]), w
    if not re[3] > 1 + w or not re[2] < 1 - w:
        raise Skip('roots')
    return s, 'outer', (re[3], re[2], re[1], re[0]), w


def C05(scope, i):
    import kerrgeopy.constants as C
    bad = []
    if scope.split()[0] in ('complex', 'outer', 'inner'):
        s, kind, want, w = plunge_domain(i)
        got = C.plunging_radial_roots(*s)
        want = [complex(v) for v in want]
        if kind == 'complex':
            ok = close(got[:2], want[:2], 1e-6) and (close(got[2:], want[2:], 1e-6) or close(got[2:], want[3:1:-1], 1e-6))
        else:
            ok = close(got, want, 1e-6)
        return (not ok), str((got, want))
    a, p, e, x = stable_domain(i)
    k = C.constants_of_motion(a, p, e, x)
    rr = C.stable_radial_roots(a, p, e, x, k)
    if not close(rr, C.stable_radial_roots(a, p, e, x)):
        bad.append('radial roots without constants')
    if not close(rr[:2], (p / (1 - e), p / (1 + e))):
        bad.append(('r1, r2', rr))
    re, im, sep = poly_roots(a, *k) if False else ([], [], 0)
    for r in rr:
        v, d, sc = _R(r, a, *k)
        if not abs(v) <= 1e-6 * sc:
            bad.append(('R', r, v, sc))
    E, L, Q = k
    if not close(sum(rr), 2 / (1 - E * E), 1e-6):
        bad.append(('sum', rr, 2 / (1 - E * E)))
    if not rr[0] >= rr[1] > rr[2] > rr[3] or not rr[3] >= -1e-12:
        bad.append(('order', rr))
    z = C.stable_polar_roots(a, p, e, x, k)
    if not close(z, C.stable_polar_roots(a, p, e, x)):
        bad.append('polar roots without constants')
    if not close(z[0], 1 - x * x):
        bad.append(('z_minus', z))
    if a > 0:
        kk = a * a * (1 - E * E)
        if not close(kk * z[1] * (1 - x * x), Q, 1e-6) or not close(kk * (z[0] + z[1]), Q + kk + L * L, 1e-6) or not z[1] >= 1 - 1e-9:
            bad.append(('z_plus', z))
    return bool(bad), str(bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C06
def C06(scope, i):
    import kerrgeopy.constants as C
    from kerrgeopy.stable import StableOrbit
    a, p, e, x = stable_domain(i)
    k = C.constants_of_motion(a, p, e, x)
    bad = []
    tol = 1e-5
    got = C.apex_from_constants(a, *k)
    if p / (1 - e) > 500:
        raise Skip('badly conditioned roots')
    if any(np.iscomplexobj(v) for v in got):
        bad.append(('complex', got))
    if not close(got, (a, p, e, x), tol):
        bad.append(('parameters', got))
    if p < stable_margin(a, e, x) + 0.05:
        return bool(bad), str(bad or 'ok')
    ph = (0.1, 0.2, 0.3, 0.4)
    o, w = StableOrbit.from_constants(a, *k, ph, 10, 2), StableOrbit(a, p, e, x, ph, 10, 2)
    for n in ('a', 'p', 'e', 'x', 'E', 'L', 'Q', 'upsilon_r', 'upsilon_theta', 'upsilon_phi', 'gamma', 'omega_r', 'omega_theta', 'omega_phi', 'M', 'mu', 'initial_phases', 'initial_position', 'initial_velocity'):
        if not close(getattr(o, n), getattr(w, n), 1e-4):
            bad.append((n, getattr(o, n), getattr(w, n)))
    o = StableOrbit.from_constants(a, *k)
    if o.M is not None or o.mu is not None or tuple(o.initial_phases) != (0, 0, 0, 0):
        bad.append('defaults')
    return bool(bad), str(bad[:3] or 'ok')


def stable_margin(a, e, x):
    return kerr.separatrix(a, e, x)


# ------------------------------------------------------------------------------------------------ motion along trajectories
C8 = (4 / 5, -1 / 5, 4 / 105, -1 / 280)


def rates(f, lam):
    """derivative of a function of Mino time, and an estimate of its error (eighth-order differences at the best step)"""
    ds = []
    for h in (0.03, 0.015, 7e-3, 3e-3, 1e-3, 3e-4, 1e-4):
        v = [(float(np.real(f(lam + n * h))), float(np.real(f(lam - n * h)))) for n in (1, 2, 3, 4)]
        d = sum(c * (p - m) for c, (p, m) in zip(C8, v)) / h
        ds.append((d, 2e-15 * max(abs(p) + abs(m) for p, m in v) / h + 4e-16 * abs(lam) / h * abs(d)))
    best = (ds[-1][0], math.inf)
    for (d, n), (d2, _) in zip(ds, ds[1:]):
        er = abs(d - d2) + n
        if er < best[1]:
            best = (d, er)
    return best


def tpot(ct, a, E, L, Q):
    """sin^2 times (dtheta/dlambda)^2"""
    s = 1 - ct * ct
    return Q * s - ct * ct * (a * a * (1 - E * E) * s + L * L)


def motion_errors(tr, a, k, lam, rlim, parts='r theta t phi', tol=2e-9):
    """geodesic equations along a trajectory at one Mino time, by finite differences"""
    E, L, Q = k
    t, r, th, ph = tr
    bad = []
    r0, th0 = float(np.real(r(lam))), float(np.real(th(lam)))
    for n, v in (('r', r(lam)), ('theta', th(lam)), ('t', t(lam)), ('phi', ph(lam))):
        if n in parts.split() and not np.isfinite(v):
            bad.append((n, v))
    if bad:
        return bad
    D = r0 * r0 - 2 * r0 + a * a
    c = math.cos(th0)
    w = math.sqrt(1 - a * a)
    span = max(1, abs(rlim[0]))
    if a:
        tol += 2e-15 / (a * a)      # rounding in the roots of the polar polynomial
    if 'r' in parts.split():
        dr, er = rates(r, lam)
        v, d, sc = _R(r0, a, *k)
        if not abs(dr * dr - v) <= 1e-10 * sc + 30 * er * (abs(dr) + er):
            bad.append(('radial equation', dr * dr, v))
        if not rlim[1] - 1e-6 * span <= r0 <= rlim[0] + 1e-6 * span:
            bad.append(('radial range', r0, rlim))
    if 'theta' in parts.split():
        dt, et = rates(th, lam)
        v = tpot(c, a, *k)
        if not abs(dt * dt * (1 - c * c) - v) <= tol * (1 + Q + L * L) + 30 * et * (abs(dt) + et):
            bad.append(('polar equation', dt * dt * (1 - c * c), v))
    if abs(r0 - 1 - w) > 0.02 and abs(r0 - 1 + w) > 0.02:
        if 't' in parts.split():
            dt, et = rates(t, lam)
            want = E * (r0 * r0 + a * a) ** 2 / D + a * L * (1 - (r0 * r0 + a * a) / D) - E * a * a * (1 - c * c)
            if not abs(dt - want) <= tol * (1 + abs(want)) + 30 * et:
                bad.append(('dt', dt, want))
        if 'phi' in parts.split():
            dp, ep = rates(ph, lam)
            want = a * E * ((r0 * r0 + a * a) / D - 1) - a * a * L / D + L / (1 - c * c)
            if not abs(dp - want) <= tol * (1 + abs(want)) + 30 * ep:
                bad.append(('dphi', dp, want))
    return bad


def _ph(i):
    return tuple(float(i.get('q_' + k, 0)) for k in ('t', 'r', 'theta', 'phi'))


def C07(scope, i):
    from kerrgeopy.stable import stable_trajectory, StableOrbit
    import kerrgeopy.constants as C
    import kerrgeopy.frequencies as F
    a, p, e, x = stable_domain(i)
    if p / (1 - e) > 300:
        raise Skip('far orbit')
    k = C.constants_of_motion(a, p, e, x)
    lim = (p / (1 - e), p / (1 + e))
    ph, lam = _ph(i), i['lam']
    bad = []
    zm = 1 - x * x
    for n, tr in (('function', stable_trajectory(a, p, e, x, ph)), ('orbit', StableOrbit(a, p, e, x, ph).trajectory()), ('orbit given phases', StableOrbit(a, p, e, x).trajectory(ph))):
        b = motion_errors(tr, a, k, lam, lim, 'r theta')
        c = math.cos(tr[2](lam))
        if c * c > zm + 1e-7:
            b.append(('theta range', c * c, zm))
        bad += [(n,) + v for v in b]
    t, r, th, f = stable_trajectory(a, p, e, x)
    y = F.mino_frequencies(a, p, e, x)
    h = 1e-3
    if not close(r(0.0), lim[1], 1e-7) or abs(th(0.0) - math.acos(math.sqrt(zm))) > 1e-7:
        bad.append(('start', r(0.0), th(0.0)))
    if e > 0 and not r(h / y[0]) > r(0.0) or e > 0 and not close(r(math.pi / y[0]), lim[0], 1e-6):
        bad.append(('moves inward', r(h / y[0]), r(0.0)))
    if zm > 0 and not th(h / abs(y[1])) > th(0.0):
        bad.append(('moves to the pole', th(h / y[1]), th(0.0)))
    return bool(bad), str(bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C12
def four_velocity_errors(a, k, tr, u, lam, tol=1e-6):
    """tr, u: functions; norm, constants and direction of the four-velocity at one Mino time"""
    E, L, Q = k
    x = [float(np.real(f(lam))) for f in tr]
    v = [float(np.real(f(lam))) for f in u]
    if not all(map(math.isfinite, x)):
        raise Skip('trajectory')
    w = math.sqrt(1 - a * a)
    if min(abs(x[1] - 1 - w), abs(x[1] - 1 + w)) < 0.02 or abs(math.sin(x[2])) < 1e-3:
        raise Skip('near a horizon or the axis')
    bad = []
    if not all(map(math.isfinite, v)):
        return [('not finite', v)]
    g = kerr.metric(a, x[1], x[2])
    n = sum(v[i] * g[i][j] * v[j] for i in range(4) for j in range(4))
    sc = 1 + sum(abs(v[i] * g[i][j] * v[j]) for i in range(4) for j in range(4))
    if abs(n + 1) > tol * sc:
        bad.append(('norm', n))
    e = -sum(g[0][j] * v[j] for j in range(4))
    l = sum(g[3][j] * v[j] for j in range(4))
    if abs(e - E) > tol * sc or abs(l - L) > tol * sc * (1 + abs(L)):
        bad.append(('constants', (e, l), (E, L)))
    S = x[1] ** 2 + a * a * math.cos(x[2]) ** 2
    for n, f, c in (('r', tr[1], 1), ('theta', tr[2], 2)):
        d, er = rates(f, lam)
        if abs(d) > 1e-4 + 100 * er and abs(v[c] * S) > 1e-4 and d * v[c] < 0:
            bad.append(('direction of ' + n, v[c] * S, d))
    return bad


def C12(scope, i):
    from kerrgeopy.spacetime import KerrSpacetime
    lam = i['lam']
    ph = _ph(i)
    if scope.startswith('formula'):
        a, r, th, k = i['a'], i['r'], i['theta'], (i['E'], i['L'], i['Q'])
        y = (i['upsilon_r'], i['upsilon_theta'])
        c = math.cos(th)
        D, S = r * r - 2 * r + a * a, r * r + a * a * c * c
        if not (0 <= a < 1 and 0.01 < th < math.pi - 0.01 and r > 0.01 and abs(D) > 1e-3 and S > 1e-3 and min(y) > 0):
            raise Skip('point')
        v, d, sc = _R(r, a, *k)
        T = tpot(c, a, *k)
        s = [math.sin(y[n] * lam + ph[n + 1]) for n in (0, 1)]
        if v < 1e-6 * sc or T < 1e-6 * (1 + k[1] ** 2 + k[2]) or min(map(abs, s)) < 1e-6:
            raise Skip('potentials')
        u = [f(lam) for f in KerrSpacetime(a).four_velocity(lambda l: 0.0, lambda l: r, lambda l: th, lambda l: 0.0, k, *y, ph)]
        want = kerr.four_velocity(a, r, th, *k, 1 if s[0] > 0 else -1, 1 if s[1] > 0 else -1) if hasattr(kerr, 'four_velocity') else None
        E, L, Q = k
        want = [(E * ((r * r + a * a) ** 2 / D - a * a * (1 - c * c)) + a * L * (1 - (r * r + a * a) / D)) / S, math.copysign(math.sqrt(v), s[0]) / S,
                math.copysign(math.sqrt(T), s[1]) / S / math.sin(th), (a * E * ((r * r + a * a) / D - 1) + L / (1 - c * c) - a * a * L / D) / S]
        bad = [(n, p, w) for n, p, w in zip('tr0f', u, want) if not abs(p - w) <= 1e-7 * (1 + abs(w) + max(map(abs, want)))]
        return bool(bad), str(bad or 'ok')
    ph2 = tuple(i['q_%sb' % n] for n in ('t', 'r', 'theta', 'phi'))
    if scope.startswith('plunge'):
        from kerrgeopy.plunge import PlungingOrbit
        s, kind, roots, w = plunge_domain(i)
        a, k = s[0], s[1:]
        mk = lambda p: PlungingOrbit(a, *k, p)
    else:
        from kerrgeopy.stable import StableOrbit
        import kerrgeopy.constants as C
        a, p, e, x = stable_domain(i)
        if p / (1 - e) > 300:
            raise Skip('far orbit')
        k = C.constants_of_motion(a, p, e, x)
        mk = lambda f: StableOrbit(a, p, e, x, f)
    o = mk(ph)
    bad = []
    done = 0
    for l in (lam, lam + 0.37, lam - 1.1, 0.0):
        for n, f, q in (('default phases', (), ph), ('given phases', (ph2,), ph2)):
            try:
                bad += [(n, l) + b for b in four_velocity_errors(a, k, o.trajectory(q), o.four_velocity(*f), l)]
                if hasattr(o, '_four_velocity_norm') and not abs(o._four_velocity_norm(*f)(l) + 1) < 1e-5:
                    tr, u = [g(l) for g in o.trajectory(q)], [g(l) for g in o.four_velocity(*f)]
                    want = KerrSpacetime(a).norm(*tr, u)
                    if not abs(o._four_velocity_norm(*f)(l) - want) < 1e-9 * (1 + abs(want)):
                        bad.append((n, l, 'norm', o._four_velocity_norm(*f)(l), want))
                done += 1
            except Skip:
                pass
    if not done:
        raise Skip('no usable time')
    if not close(o.initial_position, [f(0) for f in o.trajectory(ph)]) or not close(o.initial_velocity, [f(0) for f in o.four_velocity(ph)]):
        bad.append(('initial conditions', o.initial_position, o.initial_velocity))
    return bool(bad), str(bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C08
def jump_errors(tr, k, ups, ph, lam, parts='t phi', w=None):
    """t and phi do not jump where a phase passes a multiple of a quarter period (w: leave out times near the horizons)"""
    bad = []
    noise = 1e-8 * (2 / (1 - k[0] ** 2)) ** 2       # the coefficients of the integrals grow with the largest root
    for n, u, q0 in zip(('radial', 'polar'), ups, ph[1:3]):
        for unit in (math.pi / 2, math.pi):
            m0 = round((u * lam + q0) / unit)
            for m in range(m0 - 4, m0 + 5):
                l0 = (m * unit - q0) / u
                h = 1e-7 / max(1.0, abs(u))
                if w is not None and min(abs(float(np.real(tr[1](l0))) - 1 - s * w) for s in (1, -1)) < 0.05:
                    continue
                for c, f in (('t', tr[0]), ('phi', tr[3])):
                    if c not in parts.split():
                        continue
                    far = abs(f(l0 + 20 * h) - f(l0 + 10 * h)) + abs(f(l0 - 20 * h) - f(l0 - 10 * h))
                    near = abs(f(l0 + h) - f(l0 - h))
                    if not near <= 10 * far + 1e-5 * (1 + abs(f(l0))) + noise:
                        bad.append(('%s jumps at %s phase %g' % (c, n, m * unit), near, far))
    return bad


def C08(scope, i):
    from kerrgeopy.stable import stable_trajectory, StableOrbit
    import kerrgeopy.constants as C
    import kerrgeopy.frequencies as F
    a, p, e, x = stable_domain(i)
    if p / (1 - e) > 300:
        raise Skip('far orbit')
    k = C.constants_of_motion(a, p, e, x)
    lim = (p / (1 - e), p / (1 + e))
    ph, lam = _ph(i), i['lam']
    bad = []
    ups = F.mino_frequencies(a, p, e, x)[:2]
    o = StableOrbit(a, p, e, x, ph)
    for n, tr in (('function', stable_trajectory(a, p, e, x, ph)), ('orbit', o.trajectory()), ('orbit given phases', StableOrbit(a, p, e, x).trajectory(ph))):
        b = []
        for l in (lam, lam + 1.7, lam - 2.9):
            b += motion_errors(tr, a, k, l, lim, 't phi')
        if abs(tr[0](0) - ph[0]) > 1e-7 * (1 + abs(ph[0])) or abs(tr[3](0) - ph[3]) > 1e-7 * (1 + abs(ph[3])):
            b.append(('start', tr[0](0), tr[3](0), ph))
        b += jump_errors(tr, k, ups, ph, lam)
        if b:
            bad.append((n, b[:2]))
    return bool(bad), 'a=%r p=%r e=%r x=%r phases %r lam=%r: %s' % (a, p, e, x, ph, lam, bad[:2] or 'ok')


def plunge_motion(i, kinds, parts='r theta t phi'):
    from kerrgeopy.plunge import plunging_trajectory, PlungingOrbit, plunging_mino_frequencies
    import kerrgeopy.frequencies as F
    s, kind, rts, w = plunge_domain(i)
    if kind not in kinds:
        raise Skip('kind')
    a, E, L, Q = s
    k = (E, L, Q)
    lim = (max(rts[:2]), min(rts[:2])) if kind == 'complex' else rts[:2]
    ph, lam = _ph(i), i['lam']
    bad = []
    zero = (0.0,) * 4
    start = min(rts[:2])
    trs = [('function', plunging_trajectory(a, E, L, Q, ph), ph), ('orbit', PlungingOrbit(a, E, L, Q, ph).trajectory(), ph), ('default phases', plunging_trajectory(a, E, L, Q), zero)]
    if start > 1e-6:
        trs += [('orbit given phases', PlungingOrbit(a, E, L, Q).trajectory(ph), ph)]
    for n, tr, ph in trs:
        b = []
        for l in (lam, lam + 1.7, lam - 2.9):
            b += motion_errors(tr, a, k, l, lim, parts)
        if 't' in parts.split():
            if abs(float(np.real(tr[1](0))) - 1 - w) > 0.02 and abs(float(np.real(tr[1](0))) - 1 + w) > 0.02:
                if abs(tr[0](0) - ph[0]) > 1e-6 * (1 + abs(ph[0])) or abs(tr[3](0) - ph[3]) > 1e-6 * (1 + abs(ph[3])):
                    b.append(('start', tr[0](0), tr[3](0), ph))
            # frequencies from the motion itself: a radial period is twice the time from one turning point to the other
            b += jump_errors(tr, k, plunge_rates(a, k, rts, kind), ph, lam, w=w)
        if ph is zero and abs(float(np.real(tr[1](0))) - start) > 1e-6 * (1 + start):
            b.append(('start radius', tr[1](0), start))
        if b:
            bad.append((n, b[:2]))
    return bool(bad), 'a=%r E=%r L=%r Q=%r phases %r lam=%r: %s' % (a, E, L, Q, _ph(i), lam, bad[:2] or 'ok')


def plunge_rates(a, k, rts, kind):
    """radial and polar Mino frequencies of a plunge"""
    from scipy.special import ellipk
    E, L, Q = k
    if kind == 'complex':
        r1, r2, re, im = float(np.real(rts[0])), float(np.real(rts[1])), float(np.real(rts[2])), abs(float(np.imag(rts[2])))
        A, B = math.hypot(r2 - re, im), math.hypot(r1 - re, im)
        k2 = ((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B)
        ur = math.pi * math.sqrt(A * B * (1 - E * E)) / (2 * ellipk(k2))
    else:
        r1, r2, r3, r4 = [float(v) for v in rts]
        k2 = (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))
        ur = math.pi * math.sqrt((1 - E * E) * (r1 - r3) * (r2 - r4)) / (2 * ellipk(k2))
    b = a * a * (1 - E * E)
    h = (Q + b + L * L) / (2 * b)
    zp = h + math.sqrt(h * h - Q / b)
    ut = math.pi * math.sqrt(b * zp) / (2 * ellipk(Q / b / zp / zp))
    return ur, ut


def C11(scope, i):
    return plunge_motion(i, ('outer', 'inner'))


def C10(scope, i):
    return plunge_motion(i, ('complex',))


# ------------------------------------------------------------------------------------------------ C09
def mean_frequencies(a, k, r1, r2, r34, zm):
    """Mino frequencies and time dilation of a bound orbit by quadrature (r34: the other two roots, maybe complex conjugates)"""
    from scipy.integrate import quad
    E, L, Q = k
    b = a * a * (1 - E * E)
    bzp = b + L * L + Q - b * zm
    rr = lambda s: (r1 + r2) / 2 - (r1 - r2) / 2 * math.cos(s)
    fr = lambda s: 1 / math.sqrt((1 - E * E) * ((rr(s) - r34[0]) * (rr(s) - r34[1])).real)
    ft = lambda s: 1 / math.sqrt(bzp - b * zm * math.cos(s) ** 2)
    kw = {'epsabs': 1e-13, 'epsrel': 1e-11, 'limit': 400}
    lr, lt = quad(fr, 0, math.pi, **kw)[0], quad(ft, 0, math.pi / 2, **kw)[0]
    D = lambda r: r * r - 2 * r + a * a
    Tr = lambda r: E * (r * r + a * a) ** 2 / D(r) + a * L * (1 - (r * r + a * a) / D(r))
    Pr = lambda r: a * E * ((r * r + a * a) / D(r) - 1) - a * a * L / D(r)
    Tt = lambda c2: -E * a * a * (1 - c2)
    Pt = lambda c2: L / (1 - c2)
    mr = lambda g: quad(lambda s: g(rr(s)) * fr(s), 0, math.pi, **kw)[0] / lr
    mt = lambda g: quad(lambda s: g(zm * math.cos(s) ** 2) * ft(s), 0, math.pi / 2, **kw)[0] / lt
    return math.pi / lr, math.pi / 2 / lt, mr(Pr) + mt(Pt), mr(Tr) + mt(Tt)


def C09(scope, i):
    import kerrgeopy.constants as C
    import kerrgeopy.frequencies as F
    from kerrgeopy.stable import stable_trajectory, StableOrbit
    from kerrgeopy.plunge import plunging_trajectory, PlungingOrbit
    bad = []

    def periods(tr, ups, ph, lam):
        for n, f, u, tol in (('r', lambda l: float(np.real(tr[1](l))), ups[0], 1e-8), ('theta', lambda l: float(np.real(tr[2](l))), ups[1], 1e-8)):
            for l in (lam, lam + 0.37 / u, lam - 1.9 / u):
                if not abs(f(l + 2 * math.pi / u) - f(l)) <= tol * (1 + abs(f(l))):
                    bad.append(('%s is not periodic' % n, l, f(l), f(l + 2 * math.pi / u)))
    if scope.split()[0] in ('complex', 'outer', 'inner'):
        s, kind, rts, w = plunge_domain(i)
        tr = plunging_trajectory(*s, _ph(i))
        ups = F.plunging_mino_frequencies(*s)
        want = plunge_rates(s[0], s[1:], rts, kind)
        if not close(ups, want, 1e-9):
            bad.append(('plunging_mino_frequencies', ups, want))
        periods(tr, ups, _ph(i), i['lam'])
        if min(rts[:2]) > 1e-6:
            o = PlungingOrbit(*s)
            if not close((o.upsilon_r, o.upsilon_theta), ups, 1e-12):
                bad.append(('plunging orbit', o.upsilon_r, o.upsilon_theta, ups))
        return bool(bad), '%r: %s' % (s, bad[:3] or 'ok')
    a, p, e, x = A = stable_domain(i)
    k = C.constants_of_motion(a, p, e, x)
    E, L, Q = k
    mino, fund = F.mino_frequencies(*A), F.fundamental_frequencies(*A)
    r, t, f, g = F.r_frequency(*A), F.theta_frequency(*A), F.phi_frequency(*A), F.gamma(*A)
    if p / (1 - e) < 1000:
        re, im, sep = poly_roots(a, E, L, Q)
        r1, r2 = p / (1 - e), p / (1 + e)
        rest = sorted([complex(v) for v in list(re) + list(im)], key=lambda v: min(abs(v - r1), abs(v - r2)))[2:]
        want = mean_frequencies(a, k, r1, r2, rest, 1 - x * x)
        for n, v in (('mino', mino), ('fundamental', [w * mino[3] for w in fund] + [mino[3]])):
            if not close(v, want, 3e-6 if e < 0.02 else 2e-7):
                bad.append((n, tuple(v), 'by quadrature', want))
    if not close(fund, [v / mino[3] for v in mino[:3]], 1e-12):
        bad.append(('fundamental is not mino/gamma', fund, mino))
    if not close((r, abs(t), f, g), mino, 1e-12):
        bad.append(('mino differs from the single functions', (r, t, f, g), mino))
    for n, v, w in [('r(constants)', F.r_frequency(*A, k), r), ('theta(constants)', F.theta_frequency(*A, k), t), ('phi(constants)', F.phi_frequency(*A, constants=k), f),
                    ('phi(upsilon_r)', F.phi_frequency(*A, upsilon_r=r), f), ('phi(upsilon_theta)', F.phi_frequency(*A, upsilon_theta=t), f), ('phi(all)', F.phi_frequency(*A, k, r, t), f),
                    ('gamma(constants)', F.gamma(*A, constants=k), g), ('gamma(upsilon_r)', F.gamma(*A, upsilon_r=r), g), ('gamma(upsilon_theta)', F.gamma(*A, upsilon_theta=t), g), ('gamma(all)', F.gamma(*A, k, r, t), g)]:
        if not close(v, w, 1e-9):
            bad.append((n, v, w))
    if a == 0:
        s = math.sqrt(p - 3 - e * e)
        from scipy.special import ellipk
        want = (math.pi / 2 * math.sqrt(p * (p - 6 + 2 * e)) / s / ellipk(4 * e / (p - 6 + 2 * e)), p / s, math.copysign(p / s, x))
        if not close(mino[:3], want, 1e-9 * (1 + (0.03 / (1 - e)) ** 2)):
            bad.append(('closed form', mino, want))
    o = StableOrbit(*A)
    if not close(o.mino_frequencies(), mino, 1e-12) or not close((o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma), mino, 1e-12):
        bad.append(('orbit', o.mino_frequencies(), mino))
    if not close(o.fundamental_frequencies(), fund, 1e-12) or not close((o.omega_r, o.omega_theta, o.omega_phi), fund, 1e-12):
        bad.append(('orbit', o.fundamental_frequencies(), fund))
    rr, zz = C.stable_radial_roots(*A), C.stable_polar_roots(*A)
    v = F._mino_frequencies_from_constants(a, k, rr, zz), F._fundamental_frequencies_from_constants(a, k, rr, zz)
    if not close(v[0], mino, 1e-9) or not close(v[1], fund, 1e-9):
        bad.append(('from constants', v, mino, fund))
    if p / (1 - e) < 300:
        periods(stable_trajectory(*A, _ph(i)), mino, _ph(i), i['lam'])
        if (e > 0 and abs(stable_trajectory(*A)[1](math.pi / mino[0]) - p / (1 - e)) > 1e-5 * p / (1 - e)):
            bad.append(('half a radial period',))
    return bool(bad), 'a=%r p=%r e=%r x=%r: %s' % (a, p, e, x, bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C21
def delta_errors(o, ph, lam, lin, ups, period):
    """t and phi are linear in the time plus the deltas; lin: the slopes (None: any), ups: the radial and polar frequencies"""
    bad = []
    tr = o.trajectory() if ph is None else o.trajectory(ph)
    d = o.trajectory_deltas() if ph is None else o.trajectory_deltas(ph)
    ev = lambda f, v: float(np.real(f(v)))
    for n, f, dr, dt, s in (('t', tr[0], d[0], d[1], lin[0]), ('phi', tr[3], d[2], d[3], lin[1])):
        g = lambda l: ev(f, l) - ev(dr, ups[0] * l) - ev(dt, ups[1] * l)
        ls = [0.0, lam, 2 * lam, lam + 1.3, -2.1]
        v = [g(l) for l in ls]
        size = 1 + max(abs(ev(f, l)) + abs(ev(dr, ups[0] * l)) + abs(ev(dt, ups[1] * l)) for l in ls)
        if not np.all(np.isfinite(v)):
            raise Skip('not finite')
        if s is None:
            s = (v[4] - v[0]) / ls[4]
        for l, w in zip(ls, v):
            if abs(w - v[0] - s * l) > 1e-7 * size:
                bad.append((n, 'at', l, w, 'expected', v[0] + s * l))
        if period:
            for m, h in (('radial', dr), ('polar', dt)):
                for q0 in (ups[0] * lam, 1.0):
                    if abs(ev(h, q0 + 2 * math.pi) - ev(h, q0)) > 1e-7 * size:
                        bad.append((n, m + ' delta is not periodic', q0, ev(h, q0), ev(h, q0 + 2 * math.pi)))
    return bad


def C21(scope, i):
    from kerrgeopy.stable import StableOrbit
    from kerrgeopy.plunge import PlungingOrbit
    from kerrgeopy.orbit import Orbit
    import kerrgeopy.frequencies as F
    ph, lam = _ph(i), i['lam']
    bad = []
    if scope.split()[0] in ('complex', 'outer', 'inner'):
        s, kind, rts, w = plunge_domain(i)
        o = PlungingOrbit(*s, ph)
        ups = F.plunging_mino_frequencies(*s)
        lin = (0.0, 0.0) if kind == 'complex' else (None, None)
        objs = [('PlungingOrbit', o, None), ('PlungingOrbit', o, (0.3, 1.0, 2.0, -0.4))]
        if min(rts[:2]) > 1e-6:
            objs.append(('PlungingOrbit', PlungingOrbit(*s), ph))
        tr, u = o.trajectory(), o.four_velocity()
        per = kind != 'complex'
        want = s
    else:
        a, p, e, x = A = stable_domain(i)
        if p / (1 - e) > 300:
            raise Skip('far orbit')
        o = StableOrbit(*A, ph)
        f = F.mino_frequencies(*A)
        ups, lin = f[:2], (f[3], f[2])
        objs = [('StableOrbit', o, None), ('StableOrbit', o, (0.3, 1.0, 2.0, -0.4)), ('StableOrbit', StableOrbit(*A), ph)]
        tr, u = o.trajectory(), o.four_velocity()
        per = True
        want = (a, o.E, o.L, o.Q)
    for l in (lam, 0.0):
        pos, vel = [float(np.real(g(l))) for g in tr], [float(np.real(g(l))) for g in u]
        if not np.all(np.isfinite(pos + vel)):
            continue
        try:
            b = Orbit(want[0], tuple(pos), tuple(vel))
        except ValueError:
            continue
        if b.stable == o.stable and close((b.E, b.L, b.Q), want[1:], 1e-6):
            objs += [('Orbit', b, None), ('Orbit', b, ph)]
    for n, b, q in objs:
        l2, u2 = lin, ups
        if n == 'Orbit':
            u2 = (b.upsilon_r, b.upsilon_theta)
            l2 = (b.gamma, b.upsilon_phi) if b.stable else lin
        for er in delta_errors(b, q, lam, l2, u2, per)[:1]:
            bad.append((n, q) + er)
    return bool(bad), '%s: %s' % (want, bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C24
def C24(scope, i):
    from kerrgeopy.stable import StableOrbit
    from kerrgeopy.plunge import PlungingOrbit
    ph = _ph(i)
    M, mu = 10.0, 1.0
    if scope.split()[0] in ('complex', 'outer', 'inner'):
        s, kind, rts, w = plunge_domain(i)
        o = PlungingOrbit(*s, ph, M, mu)
        Y = o.upsilon_r
    else:
        A = stable_domain(i)
        if A[1] / (1 - A[2]) > 300:
            raise Skip('far orbit')
        o = StableOrbit(*A, ph, M, mu)
        Y = o.upsilon_r
    base = [float(i[k]) for k in ('lam', 'lamb', 'lamc', 'lamd')]
    rnd = np.random.RandomState(abs(int(1e6 * base[0])) % 2 ** 31)
    grids = {'four times': base, 'four times reversed': base[::-1], 'square': np.array(base).reshape(2, 2), 'one': base[:1],
             'many cycles': rnd.uniform(-60, 60, 300) / Y, 'increasing': np.linspace(-20, 20, 101) / Y, 'repeated': [base[0]] * 3 + base,
             'integers': np.arange(-4, 5), 'small': np.linspace(0, 0.2, 7)}
    fs = [(n, f) for n, f in zip(('t', 'r', 'theta', 'phi'), o.trajectory())]
    fs += [('u_' + n, f) for n, f in zip(('t', 'r', 'theta', 'phi'), o.four_velocity())]
    fs += [('delta ' + n, f) for n, f in zip(('t_r', 't_theta', 'phi_r', 'phi_theta'), o.trajectory_deltas())]
    fs += [('numerical u_' + n, f) for n, f in zip(('t', 'r', 'theta', 'phi'), o.numerical_four_velocity())]
    fs += [(n + ' km', f) for n, f in zip(('t', 'r'), o.trajectory((0.3, 1.0, 2.0, -0.4), distance_units='km', time_units='days'))]
    bad = []
    for g, v in grids.items():
        v = np.array(v)
        for n, f in fs:
            arg = v.copy()
            got = f(arg)
            if np.shape(got) != v.shape:
                bad.append((n, g, 'shape', np.shape(got), v.shape))
                continue
            if not np.array_equal(arg, v):
                bad.append((n, g, 'changes the times'))
                continue
            one = [f(float(t)) for t in v.flat]
            if any(np.ndim(x) for x in one):
                bad.append((n, g, 'not a number for a single time'))
                continue
            got = np.real(np.asarray(got, dtype=complex)).ravel()
            one = np.real(np.array(one, dtype=complex))
            tol = 1e-3 if n.startswith('num') else 1e-6
            sc = tol * (1 + np.abs(one)) if not n.startswith('num') else tol * (1 + np.nanmax(np.abs(one)))
            d = ~(np.abs(got - one) <= sc) & ~(np.isnan(got) & np.isnan(one))
            if d.any():
                k = int(np.argmax(d))
                bad.append((n, g, 'entry', k, 'time', float(v.flat[k]), got[k], one[k]))
    return bool(bad), str(bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C04
def C04(scope, i):
    import kerrgeopy.constants as C
    from kerrgeopy.spacetime import KerrSpacetime
    a, e, x = (i[k] for k in 'aex')
    if not (0 <= a < 1 and 0 <= e <= 1 and abs(x) <= 1):
        raise Skip('parameters')
    try:
        p = C.separatrix(a, e, x)
    except Exception as err:
        return True, 'separatrix%r raised %s: %s' % ((a, e, x), type(err).__name__, err)
    s = KerrSpacetime(a)
    p2 = s.separatrix(e, x)
    if p2 != p:
        return True, 'through the spacetime object %r instead of %r' % (p2, p)
    if a == 0:
        return abs(p - 6 - 2 * e) > 1e-12, '%r, expected %r' % (p, 6 + 2 * e)
    for q in (p * 1.01, p * .99, p):
        if C.is_stable(a, q, e, x) is not (q > p) or s.is_stable(q, e, x) is not (q > p):
            return True, 'is_stable(p=%r) with separatrix %r' % (q, p)
    if 0 < abs(x) < 1e-3 or a < 1e-4:
        return False, 'only the calls were compared'
    w = kerr.separatrix(a, e, x)
    return not abs(p - w) <= 2e-6, 'separatrix%r = %r, the turning points merge at %r' % ((a, e, x), p, w)


# ------------------------------------------------------------------------------------------------ C25
def C25(scope, i):
    import kerrgeopy.constants as C
    a, g = i['a'], i['spacing']
    if not (0 <= a < 1 and 0.02 <= g <= 0.25):
        raise Skip('parameters')
    f = C.fast_separatrix(a, grid_spacing=g)
    tx, ty = [np.asarray(t, dtype=float) for t in f.get_knots()]
    if max(abs(tx[0]), abs(tx[-1] - 1), abs(ty[0] + 1), abs(ty[-1] - 1)) > 1e-12:
        return True, 'the grid covers [%r, %r] x [%r, %r]' % (tx[0], tx[-1], ty[0], ty[-1])
    kx = int(np.sum(tx == tx[0])) - 1

    def grid(t):
        n = len(t) - kx - 1
        u = np.linspace(t[0], t[-1], n)
        w = np.unique(t)
        return list(u) if all(np.min(np.abs(u - s)) < 1e-9 for s in w) else list(w)
    gx, gy = grid(tx), grid(ty)
    if max(np.diff(gx)) > 2 * g or max(np.diff(gy)) > 2 * g:
        return True, 'grid of %d by %d points' % (len(gx), len(gy))
    for e in gx:
        for x in gy:
            want = C.separatrix(a, min(e, 1), min(x, 1))
            got = float(np.squeeze(f(e, x)))
            if not abs(got - want) < 1e-6:
                return True, 'fast_separatrix(%r, %r)(%r, %r) = %r, separatrix %r' % (a, g, e, x, got, want)
    return False, 'ok'


# ------------------------------------------------------------------------------------------------ C15
def velocity(a, r, th, k, sr, sth):
    """four-velocity at (r, theta) of the orbit with constants k, moving in the given directions"""
    E, L, Q = k
    c2 = math.cos(th) ** 2
    S = r * r + a * a * c2
    return (kerr.dt(r, c2, a, E, L) / S, sr * math.sqrt(max(0.0, kerr.R(r, a, E, L, Q))) / S,
            sth * math.sqrt(max(0.0, kerr.Theta(c2, a, E, L, Q))) / S, kerr.dphi(r, c2, a, E, L) / S)


def C15(scope, i):
    from kerrgeopy.initial_conditions import is_stable
    from kerrgeopy.orbit import Orbit
    a = i['a']
    bad = []
    if scope.startswith('circular'):
        if abs(i['x']) < 1e-2 or not 0 <= a < 1 - 1e-4 or 0 < a < 1e-4 or i['p'] < kerr.separatrix(a, 0, i['x']) + 0.02 or i['p'] > 200:
            raise Skip('not a stable circular orbit')
        for n in range(40):
            p = i['p'] + 0.037 * n
            k = kerr.constants(a, p, 0, i['x'])
            k = (k[0], k[1], max(0.0, k[2]))
            th = math.pi / 2 if k[2] < 1e-9 else math.pi / 2 + 0.1 * n / 40 * math.acos(abs(i['x']))
            pos, vel = (0.0, p, th, 0.0), velocity(a, p, th, k, 0, 1 if k[2] >= 1e-9 else 0)
            for how, f in (('is_stable', lambda: is_stable(a, pos, vel)), ('is_stable with constants', lambda: is_stable(a, pos, vel, constants=k)), ('Orbit', lambda: Orbit(a, pos, vel).stable)):
                try:
                    out = bool(f())
                except ValueError as e:
                    out = str(e)
                if out is not True:
                    bad.append((how, 'circular orbit', a, p, i['x'], out))
        return bool(bad), '%s' % (bad[:2] or 'ok')
    k = (i['E'], i['L'], i['Q'])
    r, tol = i['r'], i['tol']
    if not (0 <= a < 1 - 1e-6 and 0 < k[0] < 1 and r > 1e-3 and 0 < tol) or abs(k[0] - 1) < 1e-6:
        raise Skip('inputs')
    if a == 0 and k[1] ** 2 + abs(k[2]) < 1e-6:
        raise Skip('radial fall: two roots at the inner horizon r = 0')
    re, im, sep = poly_roots(a, *k)
    rm = 1 - math.sqrt(1 - a * a)
    calls = [(tol, 'constants and tol', lambda v: is_stable(a, (0.0, r, math.pi / 2, 0.0), v, constants=k, tol=tol)),
             (1e-4, 'constants', lambda v: is_stable(a, (0.0, r, math.pi / 2, 0.0), v, constants=k))]
    vel = (1.0, 0.0, 0.0, 0.0)
    if abs(kerr.delta(r, a)) > 1e-4 and kerr.R(r, a, *k) >= 0 and k[2] >= 0:
        vel = velocity(a, r, math.pi / 2, k, 1, 1)
        calls += [(tol, 'tol', lambda v: is_stable(a, (0.0, r, math.pi / 2, 0.0), v, tol=tol)), (1e-4, 'defaults', lambda v: is_stable(a, (0.0, r, math.pi / 2, 0.0), v))]
    for d, how, f in calls:
        want = []
        if any(abs(abs(r - x) - d) < 1e-7 * (1 + x) for x in re) or sep < 1e-4 and not (sep == 0 and a == 0) or any(abs(x - rm) < 1e-6 for x in re if a > 0 or x > 1e-6):
            continue
        if len(re) == 2:
            x, y = im[0].real, abs(im[0].imag)
            want = [False]
            if x > re[1] - 1e-3 and y < d * 1.01 and abs(r - x) < d + 1e-6:
                # a double root up to the tolerance
                continue
        elif len(re) == 0:
            want = ['refused']
        else:
            top, low = re[2] - d <= r <= re[3] + d, re[0] - d <= r <= re[1] + d
            if top:
                want.append(re[2] > rm)
            if low:
                want.append(False)
                if re[2] < rm:
                    want.append('refused')
            want = want or ['refused']
        try:
            out = bool(f(vel))
        except ValueError:
            out = 'refused'
        if out not in want:
            bad.append((how, 'roots', re, 'r', r, 'tol', d, 'got', out, 'expected', want))
    return bool(bad), '%s' % (bad[:2] or 'ok')


# ------------------------------------------------------------------------------------------------ C16, C17
def _start_errors(o, tr, u, pos, vel, at_r, at_th, k, a):
    """differences between the start of a trajectory and the initial conditions; at_*: at a turning point"""
    E, L, Q = k
    bad = []
    x, v = [float(np.real(f(0.0))) for f in tr], [float(np.real(f(0.0))) for f in u]
    fine = 2e-8 * (1 + 1 / (1 - E * E)) + (1e-13 / a ** 2 if a else 0)
    sc = max(abs(w) for w in vel)
    tol = (1e-9 * (1 + abs(pos[0])), (2.1e-4 if at_r else fine * (1 + pos[1])), (2.1e-4 if at_th else fine), 1e-9 * (1 + abs(pos[3])))
    for c, g, w, t in zip(('t', 'r', 'theta', 'phi'), x, pos, tol):
        if not abs(g - w) <= t:
            bad.append((c, g, w))
    S = pos[1] ** 2 + (a * math.cos(pos[2])) ** 2
    for c, n, snap in (('r', 1, at_r), ('theta', 2, at_th)):
        if snap or abs(vel[n] * S) < 1e-3:
            continue
        if not abs(v[n] - vel[n]) <= (1e-3 if at_r or at_th else min(1e-3, 2e-5 * (1 + sc * sc / 100))) * (abs(vel[n]) + 1e-3):
            bad.append(('velocity of ' + c, v[n], vel[n]))
        d, er = rates(tr[n], 0.0)
        if abs(d) > 1e-4 + 100 * er and d * vel[n] < 0:
            bad.append(('direction of ' + c, d, vel[n]))
    if any(isinstance(q, complex) or np.iscomplexobj(q) for q in o.initial_phases):
        bad.append(('complex phases', o.initial_phases))
    return bad


def _phase_diff(p, q, a):
    """phases agree up to whole turns of the radial and polar phase"""
    tol = 3e-6 + (1e-12 / a ** 2 if a else 0)
    out = [abs(p[0] - q[0]) > tol, abs(p[3] - q[3]) > tol]
    for n in (1, 2):
        d = (p[n] - q[n]) / (2 * math.pi)
        out.append(abs(d - round(d)) > tol)
    return any(out)


def C16(scope, i):
    from kerrgeopy.orbit import Orbit
    from kerrgeopy.initial_conditions import stable_orbit_initial_phases, is_stable
    from kerrgeopy.constants import stable_radial_roots
    from kerrgeopy.frequencies import mino_frequencies
    a, p, e, x = stable_domain(i, 0.02)
    if p > 300 or p / (1 - e) > 1000 or 0 < e < 1e-2 or abs(x) < 0.02:
        raise Skip('rounding')
    k = tuple(float(v) for v in kerr.constants(a, p, e, x))
    k = (k[0], k[1], max(0.0, k[2])) if abs(x) < 1 else (k[0], k[1], 0.0)
    r1, r2 = p / (1 - e), p / (1 + e)
    th_min = math.asin(abs(x))
    r, th = i['r'], i['theta']
    if abs(x) == 1:
        th = math.pi / 2
    if not r2 - 1e-9 <= r <= r1 + 1e-9 or not th_min - 1e-9 <= th <= math.pi - th_min + 1e-9:
        raise Skip('not on the orbit')
    r, th = min(max(r, r2), r1), min(max(th, th_min), math.pi - th_min)
    dist = [abs(r - r1), abs(r - r2)], [abs(th - th_min), abs(th - math.pi + th_min)]
    if any(5e-5 < v < 5e-4 for d in dist for v in d):
        raise Skip('near the snapping tolerance')
    at_r, at_th = min(dist[0]) < 1e-4, min(dist[1]) < 1e-4
    sg = lambda v: 1 if v > 0 else -1 if v < 0 else 0
    sr, st = sg(i['dr']), sg(i['dtheta'])
    if not at_r and not sr or not at_th and not st and abs(x) < 1:
        raise Skip('direction')
    if min(dist[0]) == 0:
        sr = 0
    if min(dist[1]) == 0:
        st = 0
    bad = []
    pos = (i['t'], r, th, i['phi'])
    vel = velocity(a, r, th, k, sr, st)
    o = Orbit(a, pos, vel)
    if not o.stable:
        return True, '%s: not stable' % ((a, p, e, x),)
    bad += _start_errors(o, o.trajectory(), o.four_velocity(), pos, vel, at_r, at_th, k, a)
    rr = stable_radial_roots(a, p, e, x, k)
    ups = mino_frequencies(a, p, e, x)
    ref = o.initial_phases
    if e > 0:
        for n, kw in (('nothing', {}), ('constants', dict(constants=k)), ('roots', dict(constants=k, radial_roots=rr)), ('frequencies', dict(upsilon_r=ups[0], upsilon_theta=ups[1])),
                      ('everything', dict(constants=k, radial_roots=rr, upsilon_r=ups[0], upsilon_theta=ups[1]))):
            q = stable_orbit_initial_phases(a, pos, vel, **kw)
            if not at_r and not at_th and _phase_diff(q, ref, a):
                bad.append(('phases with precomputed ' + n, q, ref))
    return bool(bad), '%s from %s %s: %s' % ((a, p, e, x), pos, vel, bad[:3] or 'ok')


def C17(scope, i):
    from kerrgeopy.orbit import Orbit
    from kerrgeopy.initial_conditions import plunging_orbit_initial_phases
    s, kind, rts, w = plunge_domain(i, 1e-2)
    a, k = s[0], s[1:]
    E, L, Q = k
    top, bot = max(rts[:2]), min(rts[:2])
    if top > 500:
        raise Skip('far')
    b = a * a * (1 - E * E)
    if Q == 0:
        th_min = math.pi / 2
    else:
        h = (Q + b + L * L) / (2 * b)
        th_min = math.acos(math.sqrt(Q / b / (h + math.sqrt(h * h - Q / b))))
    r, th = i['r'], i['theta']
    if Q == 0:
        th = math.pi / 2
    if not bot - 1e-9 <= r <= top + 1e-9 or not th_min - 1e-9 <= th <= math.pi - th_min + 1e-9:
        raise Skip('not on the orbit')
    r, th = min(max(r, bot), top), min(max(th, th_min), math.pi - th_min)
    dist = [abs(r - top), abs(r - bot)], [abs(th - th_min), abs(th - math.pi + th_min)]
    if any(5e-5 < v < 5e-4 for d in dist for v in d) or min(abs(r - 1 - w), abs(r - 1 + w)) < 0.02 or r < 1e-3 or r * r + (a * math.cos(th)) ** 2 < 0.02:
        raise Skip('near the snapping tolerance, a horizon or the singularity')
    at_r, at_th = min(dist[0]) < 1e-4, min(dist[1]) < 1e-4
    sg = lambda v: 1 if v > 0 else -1 if v < 0 else 0
    sr, st = sg(i['dr']), sg(i['dtheta'])
    if not at_r and not sr or not at_th and not st and Q != 0:
        raise Skip('direction')
    if min(dist[0]) == 0:
        sr = 0
    if min(dist[1]) == 0:
        st = 0
    pos = (i['t'], r, th, i['phi'])
    vel = velocity(a, r, th, k, sr, st)
    sc = max(abs(v) for v in vel)
    if sc > 1e4:
        raise Skip('rounding')
    try:
        o = Orbit(a, pos, vel)
    except ValueError as e:
        raise Skip('refused: %s' % e)
    if o.stable:
        return True, 'stable: %s' % (s,)
    if not close((o.E, o.L, o.Q), k, 1e-6):
        raise Skip('constants')
    bad = _start_errors(o, o.trajectory(), o.four_velocity(), pos, vel, at_r, at_th, k, a)
    if kind == 'complex':
        rr = (rts[0], rts[1], complex(rts[2].real, -abs(rts[2].imag)), complex(rts[2].real, abs(rts[2].imag)))
    else:
        rr = rts
    if not at_r and not at_th:
        for n, kw in (('nothing', {}), ('constants', dict(constants=k)), ('roots', dict(constants=k, radial_roots=rr))):
            q = plunging_orbit_initial_phases(a, pos, vel, **kw)
            if _phase_diff(q, o.initial_phases, a):
                bad.append(('phases with precomputed ' + n, q, o.initial_phases))
    return bool(bad), '%s from %s %s: %s' % (s, pos, vel, bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C26
class _Package:
    """the package under test, imported anew"""

    def __init__(self):
        import importlib
        for n in [n for n in sys.modules if n == 'kerrgeopy' or n.startswith('kerrgeopy.')]:
            del sys.modules[n]
        for n in ('constants', 'frequencies', 'stable', 'plunge', 'spacetime', 'initial_conditions', 'orbit', 'units'):
            setattr(self, n, importlib.import_module('kerrgeopy.' + n))


def _leaves(v):
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim:
        for x in v:
            yield from _leaves(x)
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            yield from _leaves(v[k])
    elif callable(v):
        yield None
    else:
        yield v


def _alike(u, v):
    u, v = list(_leaves(u)), list(_leaves(v))
    if len(u) != len(v):
        return False
    for x, y in zip(u, v):
        if isinstance(x, (str, bool, type(None), np.bool_)) or isinstance(y, (str, bool, type(None), np.bool_)):
            if x is not y and x != y:
                return False
            continue
        x, y = complex(x), complex(y)
        if x == y or (x != x and y != y):
            continue
        if not abs(x - y) <= 1e-10 * max(abs(x), abs(y)) + 1e-14:
            return False
    return True


def _subject26(name, i, suf, kind):
    """arguments of the operations in ops26"""
    g = lambda k: float(i[k + suf])
    s = {'M': g('M'), 'mu': g('mu'), 'lam': g('lam'), 'arr': np.array([g('lam'), g('lamb')]), 'ph': [g('q_' + k) for k in ('t', 'r', 'theta', 'phi')],
         'ph2': [g('q_' + k + '2') for k in ('t', 'r', 'theta', 'phi')], 'pos': [g('x%d' % k) for k in range(4)], 'vel': [g('v%d' % k) for k in range(4)]}
    if name.split()[0] in ('complex', 'outer', 'inner'):
        d = {k: float(i.get(k + suf, 0.0)) for k in 'aELQ'}
        t, what, rts, w = plunge_domain(d)
        s['args'], s['k'], s['stable'] = t, tuple(t[1:]), False
    else:
        d = {k: float(i[k + suf]) for k in 'apex'}
        if not kerr.separatrix(d['a'], d['e'], d['x']) + 1e-3 < d['p']:
            raise Skip('unstable')
        s['args'] = tuple(d[k] for k in 'apex')
        k = kerr.constants(*s['args'])
        s['k'], s['stable'] = (float(k[0]), float(k[1]), max(0.0, float(k[2]))), True
    a = s['args'][0]
    s['a'] = a
    if kind.startswith('Orbit'):
        # a point of the orbit, from its own trajectory
        import kerrgeopy
        from kerrgeopy.stable import StableOrbit
        from kerrgeopy.plunge import PlungingOrbit
        o = (StableOrbit if s['stable'] else PlungingOrbit)(*s['args'], s['ph'])
        t0 = s['lam']
        if not s['stable']:
            t0 = 0.3
        x = [float(np.real(f(t0))) for f in o.trajectory()]
        S_ = x[1] ** 2 + (a * math.cos(x[2])) ** 2
        rp, tp = kerr.R(x[1], a, *s['k']), kerr.Theta(math.cos(x[2]) ** 2, a, *s['k'])
        if abs(rp) < 1e-6 or S_ < 1e-2 or abs(x[1] ** 2 - 2 * x[1] + a * a) < 1e-2:
            raise Skip('turning point or horizon')
        s['pos'], s['vel'] = x, list(velocity(a, x[1], x[2], s['k'], 1, 1 if tp > 1e-6 else 0))
    return s


def C26(scope, i):
    import ops26
    kind, sl = scope.split(': ')
    na, nb = sl.split(', part')[0].split(' / ')
    ops, make = ops26.table(kind)
    if kind == 'stable functions':
        ops = ops26.stable_functions(True)
    sa, sb = _subject26(na, i, '', kind), _subject26(nb, i, '_b', kind)
    sa2 = dict(sa, **{k: sb[k] for k in ('ph', 'ph2', 'M', 'mu', 'lam', 'arr')})
    if not kind.startswith('Orbit'):
        sa2.update(pos=sb['pos'], vel=sb['vel'])

    def attempt(f, *a):
        try:
            return f(*a)
        except (ValueError, TypeError, ZeroDivisionError, KeyError, AttributeError, IndexError, NotImplementedError) as e:
            return ['raises %s' % type(e).__name__]
    frz = lambda s: [repr(v) for v in _leaves(s)]
    public = lambda o: {} if o is None else {k: list(_leaves(v)) for k, v in vars(o).items() if not k.startswith('_')}
    try:
        ref = {}
        o = make(_Package(), sa)
    except ValueError as e:
        raise Skip('refused: %s' % e)
    for f in sorted(ops):
        P = _Package()
        ref[f] = attempt(ops[f], P, attempt(make, P, sa), sa)
    keep = ops26.keepers(kind)
    bad = []
    for g in sorted(ops):
        P = _Package()
        o = attempt(make, P, sa)
        before = frz(sa), frz(sb)
        attrs = public(o)
        kept = {k: f(o, sa) for k, f in keep.items()}
        attempt(ops[g], P, attempt(make, P, sb), sb)
        if not kind.startswith('Orbit'):
            attempt(ops[g], P, attempt(make, P, sa2), sa2)
        if o is not None:
            attempt(ops[g], P, o, sa2)
        if (frz(sa), frz(sb)) != before:
            bad.append(('arguments changed by', g))
            sa, sb = _subject26(na, i, '', kind), _subject26(nb, i, '_b', kind)
            continue
        for f in sorted(ops):
            if not _alike(attempt(ops[f], P, o, sa), ref[f]):
                bad.append((f, 'after', g))
        for f, fs in kept.items():
            if not _alike(attempt(ops26.run, fs, sa['lam']), ref[f]):
                bad.append((f, 'evaluated after', g))
        now = public(o)
        for k in attrs:
            if not _alike(now.get(k, 'missing'), attrs[k]):
                bad.append(('attribute', k, 'after', g))
        if (frz(sa), frz(sb)) != before:
            bad.append(('arguments changed', 'after', g))
            sa, sb = _subject26(na, i, '', kind), _subject26(nb, i, '_b', kind)
    return bool(bad), '%s / %s: %s' % (sa['args'], sb['args'], bad[:4] or 'ok')


# ------------------------------------------------------------------------------------------------ C27
def C27(scope, i):
    from kerrgeopy.stable import StableOrbit, stable_trajectory
    from kerrgeopy.plunge import PlungingOrbit, plunging_trajectory
    from kerrgeopy.orbit import Orbit
    import kerrgeopy.frequencies as F
    ph, lam, s = _ph(i), i['lam'], i['s']
    other = tuple(i['q_%sb' % n] for n in ('t', 'r', 'theta', 'phi'))
    if scope.split()[0] in ('complex', 'outer', 'inner'):
        A, kind, rts, w = plunge_domain(i)
        ups = F.plunging_mino_frequencies(*A)
        tr = lambda p=None: plunging_trajectory(*A, p)
        o, o0 = PlungingOrbit(*A, ph), PlungingOrbit(*A)
        k = A
        top = max(rts[:2])
    else:
        A = stable_domain(i)
        top = A[1] / (1 - A[2])
        if top > 300:
            raise Skip('far orbit')
        ups = F.mino_frequencies(*A)
        tr = lambda p=None: stable_trajectory(*A, p)
        o, o0 = StableOrbit(*A, ph), StableOrbit(*A)
        k = (A[0], o.E, o.L, o.Q)
    z = (0.0,) * 4
    bad = []

    def cmp(n, g, w, tol=1e-7):
        g, w = float(np.real(g)), float(np.real(w))
        if not (abs(g - w) <= tol * (1 + abs(w)) or math.isnan(g) and math.isnan(w)):
            bad.append((n, g, w))
    P, Z = tr(ph), tr(z)
    lat = tr((0.0, ph[1] + ups[0] * s, ph[2] + ups[1] * s, 0.0))
    flat = tr((0.0, ph[1], ph[2], 0.0))
    for l in (lam, 0.0, lam * 3):
        cmp('radial phase', P[1](l), Z[1](l + ph[1] / ups[0]))
        cmp('radial phase alone', tr((0.0, ph[1], 0.0, 0.0))[1](l), P[1](l))
        cmp('polar phase', P[2](l), Z[2](l + ph[2] / ups[1]))
        cmp('polar phase alone', tr((0.0, 0.0, ph[2], 0.0))[2](l), P[2](l))
        for n, c in (('t', 0), ('phi', 3)):
            big = 1e-9 * max(abs(float(np.real(v))) for v in (P[c](l + s), P[c](s), 0.0))
            tol = 1e-7 + (0 if math.isnan(big) else big)
            cmp('initial ' + n, P[c](l), flat[c](l) + ph[c], tol)
            cmp('later start: ' + n, lat[c](l), P[c](l + s) - P[c](s), tol)
    objs = [('own phases', o, ph), ('no phases', o0, z)]
    pos, vel = [float(np.real(v)) for v in o.initial_position], [float(np.real(v)) for v in o.initial_velocity]
    if np.all(np.isfinite(pos + vel)):
        try:
            b = Orbit(A[0], tuple(pos), tuple(vel))
            if b.stable == o.stable:
                objs.append(('Orbit', b, b.initial_phases))
                if b.stable:
                    tb = lambda p: stable_trajectory(b.a, b.p, b.e, b.x, p)
                else:
                    tb = lambda p: plunging_trajectory(b.a, b.E, b.L, b.Q, p)
        except ValueError:
            pass
    for n, b, own in objs:
        t = tb if n == 'Orbit' else tr
        for how, args, p in (('default', (), own), ('given', (other,), other)):
            for c, g, w in zip(('t', 'r', 'theta', 'phi'), b.trajectory(*args), t(p)):
                cmp('%s, %s phases: %s' % (n, how, c), g(lam), w(lam))
    return bool(bad), '%s: %s' % (A, bad[:3] or 'ok')


# ------------------------------------------------------------------------------------------------ C28
def _plots(o, i, ph, n, cfg):
    """differences between what plot draws and the trajectory"""
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection, Poly3DCollection
    l0, l1, dens = i['lambda0'], i['lambda0'] + cfg['range'], cfg['density']
    p = ph if ph is not None else o.initial_phases
    ts = np.linspace(l0, l1, n)
    f = o.trajectory(p)
    i = dict(i)
    if cfg.get('behind'):       # the last point is behind the black hole
        i['elevation'], i['azimuth'] = (math.degrees(float(np.real(f[2](ts[-1])))) - 90, math.degrees(float(np.real(f[3](ts[-1])))) + 180)
    bad = []
    try:
        fig, ax = o.plot(l0, l1, i['elevation'], i['azimuth'], ph, cfg['grid'], cfg['axes'], i['lw'], 'blue', i['tau'], dens)
    except Exception as e:
        return [('plot', repr(e)[:200])]
    try:
        r, th, phi = (np.array([float(np.real(f[c](t))) for t in ts]) for c in (1, 2, 3))
        X = np.stack((r * np.sin(th) * np.cos(phi), r * np.sin(th) * np.sin(phi), r * np.cos(th)), axis=1)
        if not np.all(np.isfinite(X)):
            raise Skip('singular')
        rp = 1 + math.sqrt(1 - o.a ** 2)
        vis, edge = _sight(X, rp, i['elevation'], i['azimuth'])
        tails = [c for c in ax.collections if isinstance(c, Line3DCollection)]
        bodies = [c for c in ax.collections if isinstance(c, Path3DCollection)]
        balls = [c for c in ax.collections if isinstance(c, Poly3DCollection) and not isinstance(c, Line3DCollection)]
        if len(tails) != 1 or len(bodies) != 1 or len(balls) != 1:
            return [('artists', len(tails), len(bodies), len(balls))]
        bad += _tail(np.asarray(tails[0]._segments3d, dtype=float), X, vis, edge)
        want = 0.1 + i['lw'] * np.exp(-(l1 - ts) / i['tau'])
        lw = np.asarray(tails[0].get_linewidth(), dtype=float)
        if len(lw) < n - 1 or not np.allclose(lw[:n - 1], want[:n - 1], rtol=1e-6):
            bad.append(('line widths', lw[:3], want[:3]))
        b = np.array([np.ravel(np.ma.getdata(v))[0] for v in bodies[0]._offsets3d], dtype=float)
        if not np.allclose(b, X[-1], atol=1e-6 * (1 + np.abs(X[-1]).max())):
            bad.append(('body', b, X[-1]))
        bad += _ball(balls[0], rp)
        for c, (lo, hi) in zip('xyz', (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())):
            k = 'xyz'.index(c)
            e = 1e-6 * (1 + abs(hi - lo))
            if min(X[:, k].min(), -0.99 * rp) < lo - e or max(X[:, k].max(), 0.99 * rp) > hi + e:
                bad.append(('limits of ' + c, (lo, hi), X[:, k].min(), X[:, k].max(), rp))
        if abs(ax.elev - i['elevation']) > 1e-9 or abs(ax.azim - i['azimuth']) > 1e-9 or abs(ax.roll or 0) > 1e-9:
            bad.append(('view', ax.elev, ax.azim, ax.roll))
        if bool(ax._draw_grid) != bool(cfg['grid']) or bool(ax._axis3don) != bool(cfg['axes']):
            bad.append(('grid and axes', ax._draw_grid, ax._axis3don))
    finally:
        plt.close(fig)
    return bad


def _sight(X, rp, elev, azim):
    """visible points, and the points too close to call"""
    e, z = math.radians(elev), math.radians(azim)
    v = np.array([math.cos(e) * math.cos(z), math.cos(e) * math.sin(z), math.sin(e)])
    d = X @ v
    pr = np.linalg.norm(X - np.outer(d, v), axis=1)
    rr = np.linalg.norm(X, axis=1)
    vis = (rr > rp) & ((d >= 0) | (pr > rp))
    return vis, (abs(rr - rp) < 1e-6) | (abs(d) < 1e-6) | (abs(pr - rp) < 1e-6)


def _tail(seg, X, vis, edge):
    if len(X) < 2:
        return [('segments', seg.shape)] if seg.size else []
    if seg.shape != (len(X) - 1, 2, 3):
        return [('segments', seg.shape, len(X))]
    bad = []
    for k in range(len(X) - 1):
        if edge[k] or edge[k + 1]:
            continue
        drawn = bool(np.all(np.isfinite(seg[k])))
        want = bool(vis[k] and vis[k + 1])
        if drawn != want:
            bad.append(('segment %d drawn' % k, drawn, X[k], X[k + 1]))
        elif want and not np.allclose(seg[k], X[k:k + 2], atol=1e-6 * (1 + np.abs(X[k:k + 2]).max())):
            bad.append(('segment %d' % k, seg[k], X[k:k + 2]))
    return bad[:1]


def _ball(ball, rp):
    v = np.concatenate([np.asarray(f, dtype=float) for f in (ball._faces if getattr(ball, '_faces', None) is not None else ball._vec.T[None, :, :3])])[:, :3]
    d = np.linalg.norm(v, axis=1)
    if not np.allclose(d, rp, rtol=1e-9) or v[:, 2].max() < 0.99 * rp or v[:, 2].min() > -0.99 * rp or v[:, 0].max() < 0.9 * rp or v[:, 0].min() > -0.9 * rp:
        return [('sphere', d.min(), d.max(), rp)]
    return []


def _frames(o, i, ph, n, cfg):
    """differences between the frames of an animation and the trajectory"""
    import matplotlib.pyplot as plt
    from matplotlib.animation import FuncAnimation
    from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection, Poly3DCollection
    l0, l1 = i['lambda0'], i['lambda0'] + cfg['range']
    p = ph if ph is not None else o.initial_phases
    ts = np.linspace(l0, l1, n)
    f = o.trajectory(p)
    T, r, th, phi = (np.array([float(np.real(g(t))) for t in ts]) for g in f)
    X = np.stack((r * np.sin(th) * np.cos(phi), r * np.sin(th) * np.sin(phi), r * np.cos(th)), axis=1)
    if not np.all(np.isfinite(X)):
        raise Skip('singular')
    rp = 1 + math.sqrt(1 - o.a ** 2)
    bad, seen, mine = [], [], []
    step = int(round(cfg['speed'] * 8))
    pans = {k: (lambda t, k=k: {'azimuthal_pan': 10 + cfg.get('turn', 3) * t, 'elevation_pan': 20 - t, 'roll': 2 * t, 'axis_limit': 5 + t * t}[k]) for k in cfg['pans']}

    def save(self, *a, **kw):
        w = kw.get('writer', a[1] if len(a) > 1 else None)
        fps = getattr(w, 'fps', None) or kw.get('fps') or (a[2] if len(a) > 2 else None)
        if fps is not None and abs(fps * step / 240 - cfg['speed']) > 1e-9:
            bad.append(('speed', fps, step, cfg['speed']))
        for fr in self.new_frame_seq():
            try:
                self._draw_frame(fr)
            except Exception as e:
                bad.append(('frame %d' % fr, repr(e)[:200]))
                return
            mine.append(1)
            look(self._fig, fr)
            mine.pop()
            seen.append(fr)

    def look(fig, fr):
        ax = [x for x in fig.axes if hasattr(x, 'get_zlim')][0]
        k = step * fr
        k0 = max(0, k - int(cfg['tail'] * 240))
        az = pans['azimuthal_pan'](ts[k]) if 'azimuthal_pan' in pans else i['azimuth']
        el = pans['elevation_pan'](ts[k]) if 'elevation_pan' in pans else i['elevation']
        ro = pans['roll'](ts[k]) if 'roll' in pans else 0
        if max(abs(ax.elev - el), abs(ax.azim - az), abs(ax.roll - ro)) > 1e-9:
            bad.append(('view in frame %d' % fr, ax.elev, ax.azim, ax.roll))
        tails = [c for c in ax.collections if isinstance(c, Line3DCollection)]
        bodies = [c for c in ax.collections if isinstance(c, Path3DCollection)]
        balls = [c for c in ax.collections if isinstance(c, Poly3DCollection) and not isinstance(c, Line3DCollection)]
        if len(tails) != 1 or len(bodies) != 1 or len(balls) != 1:
            bad.append(('artists', len(tails), len(bodies), len(balls)))
            return
        vis, edge = _sight(X[k0:k], rp, el, az)
        seg = tails[0]._segments3d
        seg = np.asarray(seg, dtype=float) if len(seg) else np.zeros((0, 2, 3))
        bad.extend(('frame %d' % fr,) + b for b in _tail(seg, X[k0:k], vis, edge))
        al = np.ravel(np.asarray(tails[0].get_alpha(), dtype=float))
        want = 0.1 + 0.9 * np.exp(-(ts[k - 1] - ts[k0:k]) / i['tau'])
        if k - k0 > 1 and (len(al) < k - k0 - 1 or not np.allclose(al[:k - k0 - 1], want[:k - k0 - 1], rtol=1e-6)):
            bad.append(('opacity in frame %d' % fr, al[:3], want[:3]))
        b = np.array([np.ravel(np.ma.getdata(v))[0] for v in bodies[0]._offsets3d], dtype=float)
        if not np.allclose(b, X[k], atol=1e-6 * (1 + np.abs(X[k]).max())):
            bad.append(('body in frame %d' % fr, b, X[k]))
        bad.extend(_ball(balls[0], rp))
        for c, (lo, hi) in zip('xyz', (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())):
            if 'axis_limit' in pans:
                w = pans['axis_limit'](ts[k])
                if abs(lo + w) > 1e-9 * w or abs(hi - w) > 1e-9 * w:
                    bad.append(('limits of %s in frame %d' % (c, fr), lo, hi, w))
            else:
                m = max(np.abs(X).max(), 0.99 * rp)
                if lo > -m + 1e-6 * m or hi < m - 1e-6 * m or abs(lo + hi) > 1e-6 * m:
                    bad.append(('limits of %s' % c, lo, hi, m))
        flat = [x for x in fig.axes if not hasattr(x, 'get_zlim')]
        if len(flat) != (4 if cfg['components'] else 0):
            bad.append(('component axes', len(flat)))
        for x, g, nm in zip(flat, (T, r, th, phi), ('t', 'r', 'theta', 'phi')):
            d = [np.asarray(v, dtype=float) for v in x.lines[0].get_data()]
            if d[0].shape != (k,) or d[1].shape != (k,) or not np.allclose(d[0], ts[:k]) or not np.allclose(d[1], g[:k], rtol=1e-9, atol=1e-9):
                bad.append(('component %s in frame %d' % (nm, fr), d[1][:3], g[:3]))
    old = FuncAnimation.save
    FuncAnimation.save = save
    err = sys.stderr
    try:
        sys.stderr = open(os.devnull, 'w')
        o.animate('unused.mp4', l0, l1, i['elevation'], i['azimuth'], ph, cfg['grid'], cfg['axes'], 'blue', i['tau'], cfg['tail'], 2, speed=cfg['speed'],
                  background_color=cfg['background'], plot_components=cfg['components'], **pans)
    except Exception as e:
        if mine:        # of the oracle
            raise
        bad.append(('animate', repr(e)[:200]))
    finally:
        sys.stderr.close()
        sys.stderr = err
        FuncAnimation.save = old
        plt.close('all')
    if seen != list(range(n // step)):
        bad.append(('frames', seen, n // step))
    return bad


def C28(scope, i):
    import matplotlib
    matplotlib.use('Agg')
    from kerrgeopy.stable import StableOrbit
    from kerrgeopy.plunge import PlungingOrbit
    a = abs(i['a'])
    bad = []
    own = (0.4, 1.0, 2.0, -0.7)
    orbits = [StableOrbit(a, 10.0, 0.4, 0.6, own)]
    if a > 0.01:
        orbits.append(PlungingOrbit(a, 0.94, 0.1, 12.0, own))
    given = tuple(i['q_' + c] for c in ('t', 'r', 'theta', 'phi'))
    for o in orbits:
        for cfg in PLOTS:
            if scope.startswith('plot'):
                # a range whose product with the density is safely above the number of points
                c = dict(cfg, density=40, range=(cfg['n'] + 0.25) / 40)
                for er in _plots(o, i, given if cfg['phases'] else None, cfg['n'], c):
                    bad.append((type(o).__name__, 'plot', cfg) + er)
            else:
                c = dict(cfg, range=(cfg['frames'] * cfg['speed'] * 8 + 3.25) / 240)
                n = int(cfg['frames'] * cfg['speed'] * 8 + 3)
                for er in _frames(o, i, given if cfg['phases'] else None, n, c):
                    bad.append((type(o).__name__, 'animation', cfg) + er)
    return bool(bad), '%s' % (bad[:2] or 'ok',)


PLOTS = [dict(n=41, frames=4, phases=True, grid=True, axes=True, speed=1, tail=5, pans=(), background=None, components=False),
         dict(n=160, frames=3, phases=False, grid=False, axes=True, speed=0.5, tail=0.031, pans=('azimuthal_pan',), background='black', components=True, turn=400),
         dict(n=5, frames=5, phases=True, grid=True, axes=False, speed=2, tail=0.103, pans=('elevation_pan', 'roll'), background='white', components=False, behind=True),
         dict(n=2, frames=2, phases=False, grid=True, axes=True, speed=3, tail=0.05, pans=('elevation_pan',), background=None, components=False),
         dict(n=1, frames=3, phases=True, grid=True, axes=True, speed=1.5, tail=0.2, pans=('roll',), background='black', components=True),
         dict(n=3, frames=12, phases=True, grid=True, axes=True, speed=0.125, tail=0.02, pans=('azimuthal_pan', 'elevation_pan'), background=None, components=False, turn=4000),
         dict(n=400, frames=3, phases=False, grid=False, axes=False, speed=1, tail=1, pans=('axis_limit', 'azimuthal_pan', 'elevation_pan', 'roll'), background=None, components=True)]
