"""C10: plunges with two complex radial roots"""
from .stable import lemma, lemma_zero
from .plunge import *
from .rates import *

NAMES = ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam')


def job(j):
    m = Plunge(j.name, j.seed, 6)
    ph = phases()
    keep = {}
    if m.eq:        # the root r1 = 0 as a variable: the identities hold for any r1
        m.sorted[0] = V('r1')
        m.roots = (V('r1'),) + m.roots[1:]
        m.defs['r1'] = Fraction(0)
        m.facts.append(eq(V('r1'), 0))
    k = (m.E, m.L, m.Q)
    E, L, Q = k
    w = m.w
    r1, r2, re, im = m.roots
    A, B = V('A'), V('B')
    m.defs['A'] = lambda env, n=lift(sqrt((r2 - re) ** 2 + im ** 2)): N.evalf(n, env)
    m.defs['B'] = lambda env, n=lift(sqrt((r1 - re) ** 2 + im ** 2)): N.evalf(n, env)
    facts = m.facts + [ne(L, 0), lt(0, A), lt(0, B), eq(A * A, (r2 - re) ** 2 + im ** 2), eq(B * B, (r1 - re) ** 2 + im ** 2), ne(A, B),
                       # triangle inequalities between the complex root and the two real ones
                       lt((A - B) ** 2, (r2 - r1) ** 2), lt((r2 - r1) ** 2, (A + B) ** 2)]

    def setup(merge=True):
        m.register(j)
        S.decide(X.lt(L.n, X.const(0)))
        j.ex.merge = merge

        def init(f):
            f.sqr[f._nodegen(m.a.n)] = ('frac', f.el(lift(1 - w * w)))
            # r1, r2, A, B are free; the complex root follows from them
            f.memo[re.n] = f.el(lift((r1 + r2) / 2 - (B * B - A * A) / (2 * (r1 - r2))))
            f.sqr[f._nodegen(im.n)] = ('frac', f.el(lift(A * A - (r2 - re) ** 2)))
            f.rational = True
        j.ex.field_init = init
        j.ex._field = None
        T, R, Th, Ph = [f(LAM) for f in j.P.plunge.plunging_trajectory(m.a, E, L, Q, ph)]
        j.ex.merge = False
        c2 = cos(Th) ** 2
        return T, R, Th, Ph, [('dt', T, dt_r(R, m.a, E, L), dt_th(c2, m.a, E, L)), ('dphi', Ph, dphi_r(R, m.a, E, L), dphi_th(c2, m.a, E, L))]

    def params(R=None):
        """rational parameters: A, B, g = r2 - r1 and t with t^2 = A (h - r1) / (B (r2 - h)) for each horizon h; with R: cn is the variable"""
        ex = j.ex
        rp, rm = 1 + w, 1 - w
        pos = {'al': sqrt(A), 'be': sqrt(B), 'g': r2 - r1, 'tp': sqrt(A * (rp - r1) / (B * (r2 - rp))), 'tm': sqrt(A * (rm - r1) / (B * (r2 - rm)))}
        for n, v in pos.items():
            ex._def(n, lambda env, n=v.n: N.evalf(n, env))
            lemma(j, n + ' > 0', lt(0, V(n)))
        al, be, g, tp, tm = (V(n) for n in pos)
        lemma(j, 'tm < tp', lt(tm, tp))
        A_, B_ = al * al, be * be
        xp, xm = (g * t * t * B_ / (A_ + t * t * B_) for t in (tp, tm))
        lemma_zero(j, 'outer horizon', rp - r1 - xp)
        lemma_zero(j, 'inner horizon', rm - r1 - xm)
        kk = (g * g - (A_ - B_) ** 2) / (4 * A_ * B_)
        lemma(j, 'modulus below 1', lt(kk, 1))
        lemma(j, 'A and B differ', X.cand(ne(al - be, 0), ne(A_ - B_, 0)))
        for n, c in (('g > A - B', g - A_ + B_), ('g > B - A', g + A_ - B_), ('g < A + B', A_ + B_ - g)):
            lemma(j, n, lt(0, c))
        if R is not None:
            (u, k2), = elliptic(R)
            lemma_zero(j, 'modulus', Sym(k2) - kk)
            lemma(j, 'r away from the outer horizon', ne(R, rp))
            lemma(j, 'r away from the inner horizon', ne(R, rm))
        old = ex.field_init

        def init(f):
            f.memo[A.n], f.memo[B.n] = f.el(lift(A_)), f.el(lift(B_))
            f.memo[w.n] = f.el(lift((xp - xm) / 2))
            r1_ = 1 - (xp + xm) / 2
            f.memo[r1.n], f.memo[r2.n] = f.el(lift(r1_)), f.el(lift(r1_ + g))
            old(f)
            if R is None:
                return
            s, c, d = (f._nodegen(X._mk('f', (t, u, k2))) for t in ('sn', 'cn', 'dn'))
            f.sqr[s] = ('poly', {0: 1, f.mono(c, 2): -1})
            ke = f.el(lift(kk))
            sq = f.sum([f.const(1), f.neg(ke), f.mul(ke, norm.El({f.mono(c, 2): 1}))])
            f.sqr[d] = ('frac', sq)
            cc, fs = f.factor(sq.num)
            if len(fs) == 1 and fs[0][1] == 1:
                f.dnrad[frozenset(fs[0][0].items())] = (d, sq, cc)
            f._store('jac', (u, k2), (f.el(u), f.el(k2)), (s, c, d))
        ex.field_init = init
        ex._field = None

    def equations():
        T, R, Th, Ph, eqs = setup()
        dR, dTh = rate(R), rate(Th)
        j.zero('radial equation', dR * dR - m.R(R))
        (u, k2), = elliptic(R)
        s2, cn = Sym(X.fn('sn', u, k2)) ** 2, Sym(X.fn('cn', u, k2))
        d = A + B + (A - B) * cn
        j.zero('r >= r1', (R - r1) * d - B * (r2 - r1) * (1 - cn))
        j.zero('r <= r2', (r2 - R) * d - A * (r2 - r1) * (1 + cn))
        c = cos(Th)
        st2 = 1 - c * c
        if m.eq:
            j.zero('stays in the equatorial plane', c)
        else:
            j.zero('polar equation', dTh * dTh * st2 - (Q * st2 - c * c * (m.a ** 2 * (1 - E * E) * st2 + L * L)))

    def radial():
        T, R, Th, Ph, eqs = setup()
        for name, T, gr, gt in eqs:
            T, R_ = select([T, R], 'q_r', 'lam')
            quadrant(j, [T, R_], 'q_r', 'lam')
            params(R)
            d, = patterns(j, name, 'q_r', Sym(T))
            if not refute(j, name, d - gr - gt):
                continue
            keep['sum ' + name] = independent(j, name + ': radial', part(lift(d - gr), 'q_r')[0], 'q_r', keep, ('E', 'L'))

    def polar():
        T, R, Th, Ph, eqs = setup()
        for name, T, gr, gt in eqs:
            T, c = select([T, gt], 'q_theta', 'lam')
            quadrant(j, [T, c], 'q_theta', 'lam')
            d, = patterns(j, name, 'q_theta', Sym(T))
            if not refute(j, name, d - gr - Sym(c)):
                continue
            keep['sum2 ' + name] = independent(j, name + ': polar', part(lift(d - Sym(c)), 'q_theta')[0], 'q_theta', keep)

    def constant():
        T, R, Th, Ph, eqs = setup()
        params()
        old = j.ex.field_init

        def init(f):
            old(f)
            e = m.a ** 2 * (1 - E * E) + L * L
            lemma(j, 'a^2 (1 - E^2) + L^2 > 0', lt(0, e))
            for v in (1 - w, 1 + w, e):
                f.positive(f.el(lift(v)))
        j.ex.field_init = init
        j.ex._field = None
        for name, T, gr, gt in eqs:
            n = part(part(lift(rate(T) - gr - gt), 'q_r')[1], 'q_theta')[1]
            if 'sum ' + name not in keep or 'sum2 ' + name not in keep:
                j._record(name + ': constant', 'unresolved', 'the varying parts were not decided')
                continue
            n = X.add(n, keep['sum ' + name], keep['sum2 ' + name])
            f = norm.field(j.ex)
            for mk, v in norm.split(n, f):
                j.zero('%s: constant%s' % (name, ''.join(' %s^%d' % t for t in mk)), v)

    def jumps():
        T, R, Th, Ph, eqs = setup()
        params()
        for name, T, gr, gt in eqs:
            continuity(j, name[1:] + ', radial phase', T, 'q_r', 'lam')
            continuity(j, name[1:] + ', polar phase', T, 'q_theta', 'lam')
            j.zero(name[1:] + ' at the start', X.sub(X.substitute([lift(T)], {X.var('lam'): X.const(0)})[0], lift(ph[0 if name == 'dt' else 3])))

    def orbit():
        setup()
        j.ex.merge = True
        C = j.P.plunge
        par = (m.a, E, L, Q)
        other = phases('b')
        want = [f(LAM) for f in C.plunging_trajectory(*par, ph)]
        same(j, 'orbit trajectory', [f(LAM) for f in C.PlungingOrbit(*par, ph).trajectory()], want)
        same(j, 'orbit trajectory for given phases', [f(LAM) for f in C.PlungingOrbit(*par, other).trajectory(ph)], want)
        z = (K(0),) * 4
        tr = C.plunging_trajectory(*par, z)
        want = [f(LAM) for f in tr]
        same(j, 'default phases', [f(LAM) for f in C.plunging_trajectory(*par)], want)
        if not m.eq:        # an equatorial orbit starts in the ring singularity
            same(j, 'orbit with default phases', [f(LAM) for f in C.PlungingOrbit(*par).trajectory()], want)
        j.zero('starts at the smaller root', tr[1](K(0)) - r1)
    smp = [dict(s, **{n + 'b': q(m.rnd, -5, 5) for n in NAMES[:4]}) for s in phase_samples(m, 4)]
    j.check_sides = False
    import os
    want = os.environ.get('PART', 'equations radial polar constant jumps orbit')
    for kk, fn in (('equations', equations), ('radial', radial), ('polar', polar), ('constant', constant), ('jumps', jumps), ('orbit', orbit)):
        if kk in want:
            j.explore(fn, facts, smp, m.names + NAMES, defs=m.defs, scope=j.name + ' ' + kk)


def jobs(tier, seed):
    return [(n, job) for n in SLICES if n.startswith('complex')]



META = {
    'budget': {'quick': 200, 'thorough': 500},
    'bounds': 'all 0 < a < 1, 0 < E < 1, L != 0, Q >= 0 with two complex radial roots and A != B; every Mino time and initial phases; every number of radial and polar cycles',
    'outside': 'L = 0; the set A = B; that the roots are those of the potential (C05); Mino times at which r is at a horizon; the numerical accuracy of scipy.special and of polynomial roots',
    'stubs': ['roots of the radial polynomial: variables with their defining relations', 'scipy elliptic functions and integrals: characterised by their algebraic relations, derivatives, special values and parity'],
}
