"""C04: the separatrix is the boundary of stability"""
from .common import *
from sympy import QQ
from sympy.polys.rings import ring
from sympy.polys.fields import field
from symk import numeric as N, bern, norm, smt
import z3
import functools
import time

NAMES = ('a', 'e', 'x')
# p, A = a^2, e, Y = x^2, auxiliary parameters
RING, P, A, E, Y, W, U, T = ring('p,A,e,Y,w,u,t', QQ)
GEN = {'p': 0, 'A': 1, 'e': 2, 'Y': 3, 'w': 4, 'u': 5, 't': 6}


@functools.lru_cache(None)
def merging():
    """numerator of the condition that p/(1+e) is a double radial root when p/(1-e) is another one (r4 eliminated):
    Vieta's relations of the radial polynomial with Q = (1-x^2)(a^2(1-E^2) + L^2/x^2), the one with 2aEL squared"""
    K, p, A_, e, y = field('p,A,e,Y', QQ)
    r1, r2, c = p / (1 - e), p / (1 + e), 1 - y
    r4 = A_ * c * (r2 ** 2 + 2 * r1 * r2 - A_ * c) / (r1 * r2 ** 2 - A_ * c * (2 * r2 + r1))
    k = 2 / (r1 + 2 * r2 + r4)                      # 1 - E^2
    P2 = r2 ** 2 + 2 * r1 * r2 + 2 * r2 * r4 + r1 * r4
    P3 = r1 * r2 ** 2 + 2 * r1 * r2 * r4 + r2 ** 2 * r4
    l = k * (P2 - A_ * (2 - y))                     # L^2/x^2
    Q = c * k * (P2 - A_ * c)
    F_ = A_ * (1 - k) + y * l + Q - k * P3 / 2      # = 2aEL
    M = F_ ** 2 - 4 * A_ * (1 - k) * y * l
    up = lambda w: RING.from_dict({tuple(m) + (0, 0, 0): c for m, c in w.items()})
    return up(M.numer), (up(F_.numer), up(F_.denom)), (up(r4.numer), up(r4.denom))


class NotPolynomial(Exception):
    pass


def poly(n, j):
    """polynomial in (p, A, e, Y) of a node in t!, a, e, x (a and x squared); square roots of 1+e become u"""
    memo = {}

    def rec(k):
        if k.id in memo:
            return memo[k.id]
        if k.kind == 'c':
            v = RING(QQ(k.args.numerator, k.args.denominator))
        elif k.kind == 'v':
            v = names.get(k.args)
            if v is None:
                raise NotPolynomial(str(k))
        elif k.kind == 'a':
            v = RING(QQ(k.args[0].numerator, k.args[0].denominator))
            for t, c in k.args[1]:
                v = v + rec(t) * QQ(c.numerator, c.denominator)
        elif k.kind == 'm':
            v = RING(1)
            for b, e in k.args:
                if not isinstance(e, int) and e.denominator != 1 or e < 0:
                    raise NotPolynomial(str(k)[:80])
                v = v * rec(b) ** int(e)
        elif k.kind == 'f' and k.args[0] == 'sqrt' and k.args[1] is lift(1 + V('e')):
            v = U
        else:
            raise NotPolynomial(str(k)[:80])
        memo[k.id] = v
        return v
    big, p, a, e, x, u = ring('p,a,e,x,u', QQ)
    # even powers only: a^2 and x^2 are found after expansion
    R2, p2, a2, e2, x2, w2, u2, t2 = ring('p,a,e,x,w,u,t', QQ)
    names = {'t!': P, 'a': A, 'e': E, 'x': Y}
    v = rec(n)
    out = {}
    for m, c in v.items():
        if m[1] % 2 or m[3] % 2:
            raise NotPolynomial('odd power of a or x')
        m = (m[0], m[1] // 2, m[2], m[3] // 2) + m[4:]
        out[m] = out.get(m, 0) + c
    return RING.from_dict(out)


def sub(f, **kw):
    """substitute polynomials for generators"""
    for k, v in kw.items():
        i = GEN[k]
        v = RING(v) if not hasattr(v, 'ring') else v
        pw, out = {}, RING(0)
        for m, c in f.items():
            d = m[i]
            if d not in pw:
                pw[d] = {}
            m2 = m[:i] + (0,) + m[i + 1:]
            pw[d][m2] = pw[d].get(m2, 0) + c
        for d, g in pw.items():
            out = out + (RING.from_dict(g) * v ** d if d else RING.from_dict(g))
        f = out
    return f


def nonneg(f, box, sign=1):
    """box: generator name -> (lo, hi)"""
    used = [k for k in GEN if any(m[GEN[k]] for m in f)]
    if set(used) - set(box):
        raise NotPolynomial('free %s' % (set(used) - set(box)))
    vs = used
    d = {tuple(m[GEN[k]] for k in vs): Fraction(int(c.numerator), int(c.denominator)) for m, c in f.items()}
    if not vs:
        v = d.get((), Fraction(0)) * sign
        return v >= 0, 'constant'
    return bern.nonneg(d, vs, [box[k] for k in vs], sign)


UNIT = {'A': (0, 1), 'e': (0, 1), 'Y': (0, 1), 't': (0, 1)}
ROOT2 = Fraction(17, 12)        # above sqrt(2)


def equatorial(f):
    """f(p, A, e) in terms of w with p = (w^2+2-2e^2)/(3-e), A = p (w-4)^2/((3-e)^2 (1+e)), cleared of denominators"""
    pn = W ** 2 + 2 - 2 * E ** 2
    N1 = max(m[0] + 3 * m[1] for m in f)
    N2 = max(m[1] for m in f)
    out = RING(0)
    by = {}
    for m, c in f.items():
        by.setdefault((m[0], m[1]), {})[(0, 0) + m[2:]] = c
    for (i, k), g in by.items():
        out = out + RING.from_dict(g) * pn ** (i + k) * (W - 4) ** (2 * k) * (3 - E) ** (N1 - i - 3 * k) * (1 + E) ** (N2 - k)
    return out


def is_equatorial(f):
    """f is, up to a positive factor, (3-e)^4 (1+e)^2 (A - A-)(A - A+) with A-+ = p (w-+4)^2/((3-e)^2(1+e)), w^2 = (3-e)p-2+2e^2"""
    if any(m[3] for m in f):
        return False
    g = f.div(RING.from_dict({m: c for m, c in ref_equatorial().items()}))
    return g[1] == 0 and len(g[0]) and all(m[1:] == (0,) * 6 for m in g[0])


@functools.lru_cache(None)
def ref_equatorial():
    w2 = (3 - E) * P - 2 + 2 * E ** 2
    k = (3 - E) ** 2 * (1 + E)
    # k^2 (A - p(w-4)^2/k)(A - p(w+4)^2/k) = k^2 A^2 - 2 k A p (w^2+16) + p^2 (w^2-16)^2
    full = k ** 2 * A ** 2 - 2 * k * A * P * (w2 + 16) + P ** 2 * (w2 - 16) ** 2
    q, r = full.div((3 - E) ** 2)
    return q if r == 0 else full


def endpoint_sign(j, f, node, entry_of, sign, region):
    """sign * f(node) >= 0 for all A, e, Y in the unit cube -> (verdict, how)"""
    e = entry_of.get(node)
    if e is not None:
        g = poly(e[1], j)
        if is_equatorial(g):
            h = equatorial(f)
            if region == 'prograde':
                return nonneg(sub(h, w=1 + E + T * (3 - E)), UNIT, sign)
            h = sub(h, e=U ** 2 - 1)
            return nonneg(sub(h, w=4 + T * U * (2 - U)), dict(UNIT, u=(1, ROOT2)), sign)
        # another root: f with its multiples of the root's own polynomial removed
        f0 = RING.from_dict({m: c for m, c in f.items() if m[3] == 0})
        rest = f - f0
        if f0 != 0 and f0.div(g)[1] != 0:
            return False, 'f is not a multiple of the condition of the bracket at x=0'
        lo, hi = [box_of(j, v) for v in e[2:4]]
        box = dict(UNIT, p=(lo[0], hi[1]))
        return nonneg(rest, box, sign)
    try:
        v = poly(node, j)
        if any(m[5] for m in v):
            return nonneg(sub(sub(f, p=v), e=U ** 2 - 1), dict(UNIT, u=(1, ROOT2)), sign)
        return nonneg(sub(f, p=v), UNIT, sign)
    except NotPolynomial:
        if X.free_vars(node) - {'pi'}:
            raise
    # an algebraic constant: extreme value over A and e at a corner where it is exactly zero or has the sign
    box = dict(UNIT, p=box_of(j, node))
    corner, how = {}, []
    for k in ('A', 'e', 'Y'):
        d = f.diff({'A': A, 'e': E, 'Y': Y}[k])
        if d == 0:
            continue
        for s in (1, -1):
            ok, h = nonneg(d, box, s)
            if ok:
                how.append('monotonic in %s' % k)
                # sign*f is smallest at the lower end if sign*f increases
                corner[k] = 0 if s * sign > 0 else 1
                break
        else:
            return False, 'not monotonic in ' + k
    val = sub(f, **corner)
    n = lift(sum((Sym(X.power(node, m[0])) * K(Fraction(int(c.numerator), int(c.denominator))) for m, c in val.items()), K(0)))
    j_v = N.evalf(n, {})
    if abs(j_v) > N.mp.mpf(10) ** -15:
        return sign * j_v > 0, 'value at a corner'
    e_ = norm.field(j.ex).el(n)
    return norm.is_zero(n, j.ex) is True, ', '.join(how) + ', zero at a corner'


def box_of(j, node):
    """rational interval around a constant"""
    v = N.evalf(node, {})
    return Fraction(int(N.mp.floor(v * 100)), 100), Fraction(int(N.mp.ceil(v * 100)), 100)


def rec(j, name, fn):
    t0 = time.time()
    try:
        ok, how = fn()
    except (NotPolynomial, norm.Failed, ZeroDivisionError, RecursionError, ValueError) as e:
        ok, how = False, '%s: %s' % (type(e).__name__, e)
    j._record(name, 'proved' if ok else 'unresolved', how, None, time.time() - t0)
    return ok


def search(j, name, f, node, entries, sign, y, kind):
    """a point where sign * f(node) < 0"""
    z = {k: z3.Real(k) for k in ('p', 'A', 'e', 'Y', 'u')}
    tr = lambda g: z3.Sum([z3.Q(int(c.numerator), int(c.denominator)) * z3.Product([z[k] ** m[GEN[k]] for k in z if m[GEN[k]]] + [z3.RealVal(1)]) for m, c in g.items()] + [z3.RealVal(0)])
    cs = [0 < z['A'], z['A'] < 1, 0 <= z['e'], z['e'] <= 1]
    cs += [0 < z['Y'], z['Y'] < 1] if y is None else [z['Y'] == y]
    try:
        if node in entries:
            e = entries[node]
            g = poly(e[1], j)
            cs += [tr(g) == 0]
            for b, sg in ((e[2], 1), (e[3], -1)):
                if b not in entries:
                    if X.free_vars(b):
                        cs.append(sg * (z['p'] - tr(poly(b, j))) >= 0)
                    else:
                        cs.append(sg * z['p'] >= sg * smt.Trans().num(box_of(j, b)[0 if sg > 0 else 1]))
        elif X.free_vars(node):
            v = poly(node, j)
            cs += [z['p'] == tr(v), z['u'] > 0, z['u'] ** 2 == 1 + z['e']]
        else:
            cs += [z['p'] == smt.Trans().num(box_of(j, node)[0])]
        r, m = smt.check(cs + [sign * tr(f) < 0], 8, 'qfnra-nlsat')
    except (NotPolynomial, z3.Z3Exception):
        return
    if r == 'sat':
        A_, e_, Y_ = (smt.value(m, z[k]) for k in ('A', 'e', 'Y'))
        if None in (A_, e_, Y_):
            return
        s = -1 if kind.startswith('-') or kind == 'x=-1' else 1
        env = {'a': N.mp.sqrt(N.mp.mpf(A_.numerator) / A_.denominator), 'e': e_, 'x': s * N.mp.sqrt(N.mp.mpf(Y_.numerator) / Y_.denominator)}
        j._cand(env, name + ' (solver model)')


def divides(j, name, f, y, entry):
    """every root of f is a root of the merging condition for x^2 = y"""
    M = merging()[0]
    if y is not None:
        M = sub(M, Y=RING(y))

    def go():
        q, r = M.div(f)
        if r != 0:
            return False, 'the merging condition is not a multiple of the condition solved'
        # the quotient is the certificate: checked by the normaliser and the solver
        tv = Sym(entry[4])
        t = lambda g: lift(sum((K(Fraction(int(c.numerator), int(c.denominator))) * tv ** m[0] * V('a') ** (2 * m[1]) * V('e') ** m[2] * V('x') ** (2 * m[3])
                                for m, c in g.items()), K(0)))
        n0 = len(j.obl)
        j.zero(name + ' (certificate)', X.sub(t(M), X.mul(t(q), t(f))))
        o = j.obl.pop(n0)
        return o['status'] == 'proved', 'multiple of the condition; ' + o['how']
    rec(j, name, go)


def samples(seed, kind, n=24):
    r = random.Random(seed * 7 + len(kind))
    F = Fraction
    out = []
    xs = {'x=0': [F(0)], 'x=1': [F(1)], 'x=-1': [F(-1)]}.get(kind)
    for k in range(n):
        a = [F(1, 1000), F(1, 20), F(1, 2), F(9, 10), F(99, 100), F(999, 1000)][k] if k < 6 else q(r, 0, 1)
        e = [F(0), F(1), F(1, 1000), F(999, 1000)][k % 8] if k % 8 < 4 else q(r, 0, 1)
        x = xs[0] if xs else ([F(1, 1000), F(999, 1000), F(1, 10), F(9, 10)][k % 6] if k % 6 < 4 else q(r, 0, 1))
        out.append({'a': a, 'e': e, 'x': -x if kind.startswith('-1') and not xs else x})
    return out


def job(j):
    kind = j.name
    C = j.P.constants
    v = {k: V(k) for k in NAMES}
    fs = [le(0, v['e']), le(v['e'], 1)]
    if kind == 'a=0':
        v['a'] = K(0)
        fs += [le(-1, v['x']), le(v['x'], 1)]
    else:
        fs += [lt(0, v['a']), lt(v['a'], 1)]
    if kind in ('x=0', 'x=1', 'x=-1'):
        v['x'] = K(int(kind[2:]))
    elif kind == '0<x<1':
        fs += [lt(0, v['x']), lt(v['x'], 1)]
    elif kind == '-1<x<0':
        fs += [lt(-1, v['x']), lt(v['x'], 0)]
    a, e, x = (v[k] for k in NAMES)
    y = {'x=0': 0, 'x=1': 1, 'x=-1': 1}.get(kind)
    smp = samples(j.seed, kind)
    if kind == 'a=0':
        smp = [dict(s, a=Fraction(0), x=s['x'] * (-1) ** k) for k, s in enumerate(smp)]

    ups = {}

    def fn():
        ps = C.separatrix(a, e, x)
        log = [w for w in j.ex.path.rootlog if w[0] == 'bracket']
        s = j.P.spacetime.KerrSpacetime(a)
        same(j, 'the spacetime object has the same separatrix', s.separatrix(e, x), ps)
        p = V('p')
        j.ex._def('p', lambda env: N.evalf(lift(ps), env) * (N.mp.mpf(11) if N.evalf(lift(x), env) > 0.5 else N.mp.mpf(9)) / 10)
        st = lt(ps, p)
        for n, g in (('stability', C.is_stable(a, p, e, x)), ('stability through the spacetime object', s.is_stable(p, e, x))):
            j.equiv(n, g, st)
        if kind == 'a=0':
            return j.zero('closed form', lift(ps - (6 + 2 * e)))
        node = lift(ps)
        entries = {w[4]: w for w in log}
        # at the samples: outermost merging (numerically), and the interval contains a sign change
        if node not in entries:
            M = merging()[0]
            try:
                j.zero('the separatrix satisfies the merging condition', node_of(sub(M, Y=RING(y)) if y is not None else M, ps, a, e, x))
            except ValueError:
                j._record('root', 'unresolved', 'the result is not a root of a bracket')
            return
        for env, memo in zip(j.ex._live, j.ex._memos):
            w = {k: N.evalf(lift(v[k]), env) for k in NAMES}
            try:
                got, want = N.evalf(node, env), kerr.separatrix(*(float(w[k]) for k in NAMES))
            except N.Undefined as er:
                j._cand(env, 'bracket without a sign change: %s' % er)
                continue
            if abs(w['x']) > .01 and abs(got - want) > 1e-6:
                j._cand(env, 'separatrix %s, merging at %s' % (N.mp.nstr(got, 10), want))
        w = entries[node]
        f = poly(w[1], j)
        divides(j, 'a root of the condition is a merging of r2 with r3', f if y is None else sub(f, Y=RING(y)), y, w)
        for b in log:
            nm = 'bracket %s' % (b[4],)
            g = poly(b[1], j)
            region = 'retrograde' if kind.startswith('-') or kind == 'x=-1' else 'prograde'
            vals = []
            for env, memo in zip(j.ex._live, j.ex._memos):
                try:
                    vals.append((N.evalf(b[5], env), N.evalf(b[6], env), env))
                except N.Undefined:
                    pass
            for lo, hi, env in vals:
                if lo * hi > 0 and min(abs(lo), abs(hi)) > 1e-12:
                    j._cand(env, nm + ': no sign change')
            if vals:
                ups[b[1], b[2], b[3]] = sum(1 if hi > lo else -1 for lo, hi, env in vals) > 0
            up = ups.get((b[1], b[2], b[3]), True)
            gy = g if y is None else sub(g, Y=RING(y))
            for n, end, s in (('lower', b[2], -1 if up else 1), ('upper', b[3], 1 if up else -1)):
                nn = '%s: the condition is %s 0 at the %s end' % (nm, '>=' if s > 0 else '<=', n)
                if not rec(j, nn, lambda: endpoint_sign(j, gy, end, entries, s, region)):
                    search(j, nn, gy, end, entries, s, y, kind)
        if kind in ('x=1', 'x=-1') and is_equatorial(f):
            # the sign of 2aEL belongs to the direction of the orbit
            Fn, Fd = merging()[1]
            s = 1 if kind == 'x=1' else -1
            h = equatorial(sub(Fn * Fd, Y=RING(1)))
            if s > 0:
                rec(j, 'prograde: a E L > 0', lambda: nonneg(sub(h, w=1 + E + T * (3 - E)), UNIT, 1))
            else:
                rec(j, 'retrograde: a E L < 0', lambda: nonneg(sub(sub(h, e=U ** 2 - 1), w=4 + T * U * (2 - U)), dict(UNIT, u=(1, ROOT2)), -1))
    j.nvalid = 24
    j.check_sides = False
    j.explore(fn, fs, smp, NAMES, scope=kind)


def node_of(f, p, a, e, x):
    return lift(sum((K(Fraction(int(c.numerator), int(c.denominator))) * p ** m[0] * a ** (2 * m[1]) * e ** m[2] * x ** (2 * m[3]) for m, c in f.items()), K(0)))


def jobs(tier, seed):
    return [(k, job) for k in ('a=0', 'x=0', 'x=1', 'x=-1', '0<x<1', '-1<x<0')]


META = {
    'budget': {'quick': 120, 'thorough': 300},
    'bounds': 'all 0 <= a < 1, 0 <= e <= 1, |x| <= 1 (6 slices)',
    'outside': 'for inclined orbits: that the root in the interval is the one with the sign of L belonging to x and that it is unique (compared with an independent bisection at sample points)',
    'stubs': ['bracketed root finding: an unknown number in the interval at which the condition vanishes, provided the condition changes sign over the interval (proved here)'],
}
