"""C11: plunges with four real radial roots"""
from .stable import lemma, lemma_zero
from .plunge import *
from .rates import *

NAMES = ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam')


def job(j):
    m = Plunge(j.name, j.seed, 6)
    ph = phases()
    keep = {}
    k = (m.E, m.L, m.Q)
    E, L, Q = k
    w = m.w
    r1, r2, r3, r4 = m.roots

    def setup(merge=True):
        m.register(j)
        j.ex.known_polys[:] = j.ex.known_polys[-2:]
        S.decide(X.lt(L.n, X.const(0)))
        j.ex.merge = merge

        def init(f):
            f.sqr[f._nodegen(m.a.n)] = ('poly', f.el(lift(1 - w * w)).num)
        j.ex.field_init = init
        j.ex._field = None
        T, R, Th, Ph = [f(LAM) for f in j.P.plunge.plunging_trajectory(m.a, E, L, Q, ph)]
        j.ex.merge = False
        c2 = cos(Th) ** 2
        return T, R, Th, Ph, [('dt', T, dt_r(R, m.a, E, L), dt_th(c2, m.a, E, L)), ('dphi', Ph, dphi_r(R, m.a, E, L), dphi_th(c2, m.a, E, L))]

    def in_r(R):
        ex = j.ex
        (u, k2), = elliptic(R)
        r = V('R')
        ex._def('R', lambda env, n=R.n: N.evalf(n, env))
        for n, c in (('above r2', lt(r2, r)), ('below r1', lt(r, r1))):
            lemma(j, 'r ' + n, c)
        # the other two roots are both smaller (outer) or both larger (inner) than the interval
        for n, x in (('r3', r3), ('r4', r4)):
            lemma(j, 'r and ' + n, lt(x, r) if m.kind == 'outer' else lt(r, x))
        sq = [(r1 - r3) * (r - r2) / ((r1 - r2) * (r - r3)), (r1 - r) * (r2 - r3) / ((r1 - r2) * (r - r3)), (r2 - r3) * (r - r4) / ((r2 - r4) * (r - r3))]
        vals = []
        for f, s2 in zip(('sn', 'cn', 'dn'), sq):
            n = X.fn(f, u, k2)
            lemma_zero(j, f + ' as a function of r', Sym(n) ** 2 - s2)
            vals.append(X.scale(1 if S.decide(X.lt(X.const(0), n)) else -1, X.fn('sqrt', s2.n)))
        old = ex.field_init

        def init(f):
            old(f)
            f._store('jac', (u, k2), (f.el(u), f.el(k2)), tuple(f.el(n) for n in vals))
        ex.field_init = init
        ex._field = None

    def equations():
        T, R, Th, Ph, eqs = setup()
        dR, dTh = rate(R), rate(Th)
        j.zero('radial equation', dR * dR - (1 - E * E) * (r1 - R) * (R - r2) * (R - r3) * (R - r4))
        s2, c2 = (Sym(X.fn(f, *elliptic(R)[0])) ** 2 for f in ('sn', 'cn'))
        d = (r1 - r3) - (r1 - r2) * s2
        j.true('denominator', lt(0, d) if m.kind == 'outer' else lt(d, 0))
        j.zero('r >= r2', R - r2 - (r2 - r3) * (r1 - r2) * s2 / d)
        j.zero('r <= r1', r1 - R - (r1 - r3) * (r1 - r2) * c2 / d)
        c = cos(Th)
        st2 = 1 - c * c
        if m.eq:
            j.zero('stays in the equatorial plane', c)
        else:
            j.zero('polar equation', dTh * dTh * st2 - (Q * st2 - c * c * (m.a ** 2 * (1 - E * E) * st2 + L * L)))

    def radial():
        T, R, Th, Ph, eqs = setup()
        for name, T, gr, gt in eqs:
            T, R_ = select([T, R], 'q_r', 'lam')
            quadrant(j, [T, R_], 'q_r', 'lam')
            in_r(R)
            d, = patterns(j, name, 'q_r', Sym(T))
            if not refute(j, name, d - gr - gt):
                continue
            keep['sum ' + name] = independent(j, name + ': radial', part(lift(d - gr), 'q_r')[0], 'q_r', keep, ('E', 'L'))

    def polar_relations():
        if m.eq:
            return
        old = j.ex.field_init

        def init(f):
            old(f)
            b = m.a ** 2 * (1 - E * E)
            f.sqr[f._nodegen(L.n)] = ('poly', f.el(lift(b * (1 - m.zm) * (m.zp - 1))).num)
            f.memo[Q.n] = f.el(lift(b * m.zm * m.zp))
        j.ex.field_init = init
        j.ex._field = None

    def polar():
        T, R, Th, Ph, eqs = setup()
        polar_relations()
        for name, T, gr, gt in eqs:
            T, c = select([T, gt], 'q_theta', 'lam')
            quadrant(j, [T, c], 'q_theta', 'lam')
            d, = patterns(j, name, 'q_theta', Sym(T))
            if not refute(j, name, d - gr - Sym(c)):
                continue
            keep['sum2 ' + name] = independent(j, name + ': polar', part(lift(d - Sym(c)), 'q_theta')[0], 'q_theta', keep)

    def constant():
        T, R, Th, Ph, eqs = setup()
        for name, T, gr, gt in eqs:
            n = part(part(lift(rate(T) - gr - gt), 'q_r')[1], 'q_theta')[1]
            if 'sum ' + name not in keep or 'sum2 ' + name not in keep:
                j._record(name + ': constant', 'unresolved', 'the varying parts were not decided')
                continue
            n = X.add(n, keep['sum ' + name], keep['sum2 ' + name])
            f = norm.field(j.ex)
            for mk, v in norm.split(n, f):
                j.zero('%s: constant%s' % (name, ''.join(' %s^%d' % t for t in mk)), v)

    def jumps():
        T, R, Th, Ph, eqs = setup()
        for name, T, gr, gt in eqs:
            continuity(j, name[1:] + ', radial phase', T, 'q_r', 'lam')
            continuity(j, name[1:] + ', polar phase', T, 'q_theta', 'lam')
            j.zero(name[1:] + ' at the start', X.sub(X.substitute([lift(T)], {X.var('lam'): X.const(0)})[0], lift(ph[0 if name == 'dt' else 3])))

    def orbit():
        setup()
        j.ex.merge = True
        C = j.P.plunge
        par = (m.a, E, L, Q)
        other = phases('b')
        want = [f(LAM) for f in C.plunging_trajectory(*par, ph)]
        same(j, 'orbit trajectory', [f(LAM) for f in C.PlungingOrbit(*par, ph).trajectory()], want)
        same(j, 'orbit trajectory for given phases', [f(LAM) for f in C.PlungingOrbit(*par, other).trajectory(ph)], want)
        z = (K(0),) * 4
        want = [f(LAM) for f in C.plunging_trajectory(*par, z)]
        same(j, 'default phases', [f(LAM) for f in C.plunging_trajectory(*par)], want)
        if m.name != 'inner equatorial':        # that orbit starts in the ring singularity
            same(j, 'orbit with default phases', [f(LAM) for f in C.PlungingOrbit(*par).trajectory()], want)
    smp = [dict(s, **{n + 'b': q(m.rnd, -5, 5) for n in NAMES[:4]}) for s in phase_samples(m, 4)]
    j.check_sides = False
    import os
    want = os.environ.get('PART', 'equations radial polar constant jumps orbit')
    for kk, fn in (('equations', equations), ('radial', radial), ('polar', polar), ('constant', constant), ('jumps', jumps), ('orbit', orbit)):
        if kk in want:
            j.explore(fn, m.facts + [ne(m.L, 0)], smp, m.names + NAMES, defs=m.defs, scope=j.name + ' ' + kk)


def jobs(tier, seed):
    return [(n, job) for n in SLICES if not n.startswith('complex')]


META = {
    'budget': {'quick': 200, 'thorough': 500},
    'bounds': 'all 0 < a < 1, 0 < E < 1, L != 0, Q >= 0 with four distinct real radial roots, a plunge across both horizons from either pair of roots; every Mino time and initial phases; every number of radial and polar cycles',
    'outside': 'L = 0; that the roots are those of the potential (C05); Mino times at which r is at a horizon; the numerical accuracy of scipy.special and of polynomial roots',
    'stubs': ['roots of the radial and polar polynomials: variables with their defining relations', 'scipy elliptic functions and integrals: characterised by their algebraic relations, derivatives, special values and parity'],
}
