"""Rates of t and phi along a trajectory, split into their radial, polar and constant parts.

A rate d(lambda) is a sum of a part that varies with the radial phase, a part that varies with the polar phase
and a constant; `part` extracts them exactly (n - part(n) does not contain the phase).  The geodesic equation says
that the radial part minus the radial function of r is a constant, and so on; each piece is decided on its own,
and so is each coefficient of an incomplete elliptic integral (they have to cancel)."""
from .common import *
from .motion import *
from symk import numeric as N

import os
TRACE = os.environ.get('TRACE')
ATOMS = ('sn', 'cn', 'dn', 'am', 'sin', 'cos')


def contains(n, *names):
    """all the variables occur in n"""
    have = {k.args for k in X.walk([n]) if k.kind == 'v'}
    return all(v in have for v in names)


def atoms(n, *names):
    """the elementary and Jacobi function values in n that depend on the variables"""
    return [k for k in X.walk([n]) if k.kind == 'f' and k.args[0] in ATOMS and contains(k, *names)]


def select(ns, *names):
    """decide the conditionals that depend on the variables"""
    ns = [lift(n) for n in ns]
    while True:
        for k in X.walk(ns):
            if k.kind == 'f' and k.args[0] in ('iflt', 'ifle', 'ifeq') and contains(k.args[1], *names):
                c = X.cmp(k.args[0][2:], k.args[1])
                ns = X.substitute(ns, {k: k.args[2] if S.decide(c) else k.args[3]})
                break
        else:
            return ns


def parities(j):
    """floor(psi / (pi/2)) is even (odd) on the path: sin and cos of psi have the same (opposite) signs"""
    z = X.const(0)
    for c in list(j.ex.path.pc):
        odd = c.op == 'not'
        d = c.args[0] if odd else c
        if d.op != 'eq':
            continue
        n = d.args[0]
        shift = 0
        if n.kind == 'a' and len(n.args[1]) == 1 and n.args[1][0][1] == 1:
            shift, n = -n.args[0], n.args[1][0][0]
        if n.kind == 'f' and n.args[0] == 'mod' and n.args[2] is X.const(2) and n.args[1].kind == 'f' and n.args[1].args[0] == 'floor' and shift in (0, 1):
            psi = lift(Sym(n.args[1].args[1]) * PI / 2)
            sc = X.mul(X.fn('sin', psi), X.fn('cos', psi))
            j.ex.assume(X.lt(z, sc) if odd == (shift == 1) else X.lt(sc, z))


def quadrant(j, ns, *names):
    """decide the signs of the trigonometric and elliptic functions"""
    parities(j)
    z = X.const(0)
    seen = set()
    for k in atoms(X.add(*ns), *names):
        f = k.args[0]
        if f in ('am', 'sn', 'cn', 'dn'):
            s, c, d = (X.fn(g, *k.args[1:]) for g in ('sn', 'cn', 'dn'))
            j.ex.assume(X.lt(z, d))
        elif any(x.kind == 'f' and x.args[0] == 'am' for x in X.walk([k.args[1]])):
            continue
        else:
            s, c = X.fn('sin', k.args[1]), X.fn('cos', k.args[1])
        for t in (s, c):
            if t not in seen:
                seen.add(t)
                S.decide(X.lt(z, t))


def part(n, *names):
    """(n's part varying with the variables, the rest): their sum is n and the rest does not contain the variables"""
    memo, has = {}, {}
    for k in X.walk([n]):
        has[k] = (k.kind == 'v' and k.args in names) or any(has[c] for c in X.children(k))
    zero = X.const(0)

    def rec(k):
        if not has[k]:
            return zero, k
        if k in memo:
            return memo[k]
        r = k, zero
        if k.kind == 'a':
            ps = [(c, rec(t)) for t, c in k.args[1]]
            r = X.add(*[X.scale(c, p) for c, (p, q) in ps]), X.add(X.const(k.args[0]), *[X.scale(c, q) for c, (p, q) in ps])
        elif k.kind == 'm':
            d = [(b, e) for b, e in k.args if has[b]]
            if len(d) == 1 and d[0][1] == 1:
                o = X._powprod([(b, e) for b, e in k.args if not has[b]])
                p, q = rec(d[0][0])
                r = X.mul(o, p), X.mul(o, q)
        memo[k] = r
        return r
    return rec(n)


def independent(j, name, n, var, keep, variables=()):
    """n does not depend on the phase var: every coefficient of its opaque values is free of it; returns n as such an expression.

    keep remembers the expression between paths: the value has to be the same on all of them."""
    f = norm.field(j.ex)
    total = []
    for mk, v in norm.split(n, f):
        for m2, v2 in (norm.split(v, f, (), variables=variables) if variables else [((), v)]):
            label = '%s%s' % (name, ''.join(' %s^%d' % t for t in mk + m2))
            try:
                c = f.full_node(f.el(v2))
            except (norm.Failed, ZeroDivisionError) as er:
                j._record(label, 'unresolved', 'not in normal form: %s' % er)
                continue
            if mk and any(contains(f.node_of(int(g[1:])), var) for g, _ in mk if g[1:].isdigit()):
                c = X.const(0)          # an incomplete integral of the phase: has to cancel
            elif any(k.kind == 'v' and k.args == var for k in X.walk([c])) or 'R' in [k.args for k in X.walk([c]) if k.kind == 'v']:
                c = keep.get(label, X.const(0))
            want = keep.setdefault(label, c)
            if TRACE:
                print(label, X.show(v2)[:300], '||', X.show(c)[:200], '||', X.show(want)[:200])
            j.zero(label, X.sub(v2, want))
            if TRACE and j.obl[-1]['status'] != 'proved':
                print('FAILED', X.show(v2, 12), '||', X.show(f.full_node(f.el(v2)), 12), '||', X.show(want, 12), j.obl[-1])
                print(j.ex.path.pc[-8:])
            total.append(X.mul(want, *[X.power(X.var(g) if not g[1:].isdigit() else f.node_of(int(g[1:])), e) for g, e in mk + m2]))
    return X.add(*total) if total else X.const(0)


def refute(j, name, n, tol=1e-12):
    """evaluate an identity at the sample points only (gives candidates; proves nothing)"""
    n = lift(n)
    bad = []
    for env, memo in zip(j.ex._live, j.ex._memos):
        try:
            v, sc = abs(N.evalf(n, env, memo)), j._mag(n, env, memo)
        except N.Undefined as e:
            j._cand(env, '%s: undefined (%s)' % (name, e))
            continue
        if v > tol * sc and v > N.mp.mpf(10) ** -20:
            bad.append((v / sc, env))
    for v, env in sorted(bad, key=lambda b: -b[0])[:4]:
        j._cand(env, '%s: relative residual %s' % (name, N.mp.nstr(v, 3)))
    if bad:
        j._record(name, 'refuted', 'witness')
    return not bad


def patterns(j, name, var, *ts):
    """derivatives along lambda, with the conditions under which the Carlson rules apply"""
    D.PATTERN.clear()
    out = [rate(t) for t in ts]
    for n in dict.fromkeys(D.pattern_nodes()):
        if not contains(n, var):
            continue
        j.zero(name + ': elliptic pattern', n)
    return out


def factored(j, n):
    """the same value as a product of the factors of its normal form"""
    try:
        f = norm.field(j.ex)
        e = f.el(n)
        c, fs = f.factor(e.num)
    except (norm.Failed, ZeroDivisionError):
        return n
    if not e.num:
        return n
    d = [X.power(f.poly_node(f.facs[k]), m) for k, m in e.den.items()]
    return X.div(X.mul(X.const(c), *[X.power(f.poly_node(p), m) for p, m in fs]), X.mul(X.const(e.q), *d))


def branch(j, name, y, x):
    """arctan2(y, x) stays off its cut: y is a product, and wherever one of its factors vanishes x is positive"""
    z = X.const(0)
    if y.kind == 'a' and len(y.args[1]) == 1 and not y.args[0]:
        y = y.args[1][0][0]
    for b, e in (y.args if y.kind == 'm' else [(y, 1)]):
        if b.kind == 'f' and b.args[0] in ('sn', 'cn', 'sin', 'cos'):
            f, rest = b.args[0], b.args[1:]
            s, c, d = ('sn', 'cn', 'dn') if f in ('sn', 'cn') else ('sin', 'cos', None)
            for v in (1, -1):
                m = {b: z, X.fn(c if f == s else s, *rest): X.const(v)}
                if d:
                    m[X.fn(d, *rest)] = X.const(1) if f == s else X.fn('sqrt', X.sub(X.const(1), rest[1]))
                j.true(name + ': arctan2 off its cut', X.lt(z, factored(j, X.substitute(x, m))))
        elif b.kind == 'f' and b.args[0] == 'dn':
            j.ex.assume(X.lt(z, b))
        else:
            try:
                f = norm.field(j.ex)
                el = f.el(b.args[1] if b.kind == 'f' and b.args[0] == 'sqrt' else b)
                for p, _ in f.factor(el.num)[1]:
                    p = f.poly_node(p)
                    c = X.lt(z, p) if j.ex._cache.get(X.lt(z, p).key) is True else X.cnot(X.cmp('eq', p))
                    j.true(name + ': arctan2 off its cut (factor)', c)
                continue
            except (norm.Failed, ZeroDivisionError):
                pass
            j.true(name + ': arctan2 off its cut (factor)', X.cnot(X.cmp('eq', b)))


def jump(T, left, right):
    """T with one substitution minus T with another"""
    L, R, D = dict(left), dict(right), {}
    nodes = X.walk([T])
    for n in nodes:
        for m in (L, R):
            if n not in m:
                m[n] = X.substitute(n, {c: m[c] for c in X.children(n)})
        if L[n] is R[n]:
            D[n] = X.const(0)
            continue
        D[n] = None
        if n not in left and n.kind == 'a':
            D[n] = X.add(*[X.scale(c, D[t]) for t, c in n.args[1]])
        elif n not in left and n.kind == 'm':
            ch = [(b, e) for b, e in n.args if L[b] is not R[b]]
            if len(ch) == 1 and ch[0][1] == 1:
                D[n] = X.mul(X._powprod([(L[b], e) for b, e in n.args if b is not ch[0][0]]), D[ch[0][0]])
        if D[n] is None:
            D[n] = X.sub(L[n], R[n])
    return D[T]


def continuity(j, name, T, *names):
    """no jump where the number of quarter periods changes: the limits from both sides agree.

    floor(psi/(pi/2)) is n on the right and n-1 on the left of psi = n pi/2, for n = 0, 1, 2, 3 mod 4."""
    T = lift(T)
    n = X.var('n_c')
    if 'n_c' not in j.ex.vardefs:
        j.ex._def('n_c', lambda env: N.mp.mpf(int(3 * env['lam']) + 5))
    floors = []
    for k in X.walk([T]):
        if k.kind == 'f' and k.args[0] == 'floor' and contains(k, *names) and k not in floors:
            floors.append(k)
    angles = dict.fromkeys(lift(Sym(k.args[1]) * PI / 2) for k in floors)
    if len(angles) > 1:
        first = next(iter(angles))
        angles = {p: 1 for p in angles if p is first or not j.ex.equal(X.sub(p, first), X.const(0))}
    for psi in angles:
        mine = [k for k in floors if j.ex.equal(X.sub(lift(Sym(k.args[1]) * PI / 2), psi), X.const(0))]
        ams = [k.args[1:] for k in X.walk([T]) if k.kind == 'f' and k.args[0] == 'am' and k is psi]
        for quarter in range(4):
            s, c = [(0, 1), (1, 0), (0, -1), (-1, 0)][quarter]
            maps = []
            for side in (0, 1):
                m = {k: X.sub(n, X.const(side)) for k in mine}
                if psi.kind == 'f' and psi.args[0] == 'am':
                    u, k2 = psi.args[1:]
                    m[X.fn('sn', u, k2)], m[X.fn('cn', u, k2)] = X.const(s), X.const(c)
                    m[X.fn('dn', u, k2)] = X.const(1) if s == 0 else X.fn('sqrt', X.sub(X.const(1), k2))
                    m[psi] = lift(Sym(n) * PI / 2)
                else:
                    m[X.fn('sin', psi)] = X.const(s)
                    m[X.fn('cos', psi)] = X.const(c)
                    for f, g, sg in (('sin', 'cos', 0), ('cos', 'sin', 0)):
                        w = X.fn(f, psi)
                        if w.kind == 'a' and len(w.args[1]) == 1 and w.args[0] == 0:      # a shifted angle in another form
                            m[w.args[1][0][0]] = X.const(Fraction(s if f == 'sin' else c) / w.args[1][0][1])
                for k in X.walk([T]):
                    if k.kind == 'f' and k.args[0] == 'mod' and k.args[2] is X.const(2):
                        off, core = X.offset(k.args[1])
                        if core in mine and off.denominator == 1:
                            m[k] = X.const((quarter - side + int(off)) % 2)
                maps.append(m)
            j.zero('%s: no jump at quarter period %d' % (name, quarter), jump(T, *maps))
    for k in dict.fromkeys(k for k in X.walk([T]) if k.kind == 'f' and k.args[0] == 'arctan2' and contains(k, *names)):
        y, x = k.args[1:]
        branch(j, name, y, x)
    rest = [k for k in X.walk([T]) if k.kind == 'f' and k.args[0] in ('floor', 'mod') and contains(k, *names) and k not in floors and not any(f in floors for f in X.walk([k]))]
    if rest:
        j._record(name + ': no jump', 'unresolved', 'other discontinuous functions of the phase: %s' % sorted({k.args[0] for k in rest}))
