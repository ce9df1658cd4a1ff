"""C08: rates of time and azimuth along stable orbits"""
from .stable import *
from .rates import *


def job(j):
    m = Stable(j.name, j.seed)
    m.stub_separatrix(j.P)
    ph = phases()
    keep = {}

    def setup():
        consts = constants(j, m)
        facts_constants(j, m, *consts)
        rr, w = roots(j, m, consts)
        vieta(j, m, consts, rr)
        E, L, Q = consts
        relations(j, m, consts, w)
        j.ex.merge = True
        tr = j.P.stable.stable_trajectory(m.a, m.p, m.e, m.x, ph)
        T, R, Th, Ph = [f(LAM) for f in tr]
        j.ex.merge = False
        c2 = cos(Th) ** 2
        eqs = [('dt', T, dt_r(R, m.a, E, L), dt_th(c2, m.a, E, L)), ('dphi', Ph, dphi_r(R, m.a, E, L), dphi_th(c2, m.a, E, L))]
        return (consts, rr, w), R, eqs

    def in_r(consts, rr, w, R):
        """make r the variable: the squares of the radial elliptic functions are rational in it"""
        ex = j.ex
        r1, r2, r3, r4 = rr
        (u, k2), = elliptic(R)
        r = V('R')
        ex._def('R', lambda env, n=R.n: N.evalf(n, env))
        lemma(j, 'r above r2', lt(r2, r))
        lemma(j, 'r below r1', lt(r, r1))
        lemma(j, 'r above r3', lt(r3, r))
        lemma(j, 'r above r4', lt(r4, r))
        sq = [(r1 - r3) * (r - r2) / ((r1 - r2) * (r - r3)), (r1 - r) * (r2 - r3) / ((r1 - r2) * (r - r3)), (r2 - r3) * (r - r4) / ((r2 - r4) * (r - r3))]
        vals = []
        for f, s2 in zip(('sn', 'cn', 'dn'), sq):
            n = X.fn(f, u, k2)
            lemma_zero(j, f + ' as a function of r', Sym(n) ** 2 - s2)
            vals.append(X.scale(1 if S.decide(X.lt(X.const(0), n)) else -1, X.fn('sqrt', s2.n)))

        old = ex.field_init

        def init(f):
            old(f)
            f._store('jac', (u, k2), (f.el(u), f.el(k2)), tuple(f.el(n) for n in vals))
        ex.field_init = init
        ex._field = None
        return r

    def radial():
        (consts, rr, w), R, eqs = setup()
        for name, T, gr, gt in eqs:
            T, R_ = select([T, R], 'q_r', 'lam')
            quadrant(j, [T, R_], 'q_r', 'lam')
            if m.ecc == 'ecc':
                in_r(consts, rr, w, R)
            d, = patterns(j, name, 'q_r', Sym(T))
            if not refute(j, name, d - gr - gt):
                continue
            x = part(lift(d - gr), 'q_r')[0]
            keep['sum ' + name] = independent(j, name + ': radial', x, 'q_r', keep, ('E', 'L'))

    def polar():
        (consts, rr, w), R, eqs = setup()
        for name, T, gr, gt in eqs:
            T, c = select([T, gt], 'q_theta', 'lam')
            quadrant(j, [T, c], 'q_theta', 'lam')
            d, = patterns(j, name, 'q_theta', Sym(T))
            if not refute(j, name, d - gr - Sym(c)):
                continue
            keep['sum2 ' + name] = independent(j, name + ': polar', part(lift(d - Sym(c)), 'q_theta')[0], 'q_theta', keep)

    def constant():
        (consts, rr, w), R, eqs = setup()
        for name, T, gr, gt in eqs:
            d = rate(T)
            n = lift(d - gr - gt)
            n = part(part(n, 'q_r')[1], 'q_theta')[1]
            if 'sum ' + name not in keep or 'sum2 ' + name not in keep:
                j._record(name + ': constant', 'unresolved', 'the varying parts were not decided')
                continue
            n = X.add(n, keep['sum ' + name], keep['sum2 ' + name])
            f = norm.field(j.ex)
            for mk, v in norm.split(n, f):
                j.zero('%s: constant%s' % (name, ''.join(' %s^%d' % t for t in mk)), v)
    def jumps():
        (consts, rr, w), R, eqs = setup()
        for name, T, gr, gt in eqs:
            continuity(j, name[1:] + ', radial phase', T, 'q_r', 'lam')
            continuity(j, name[1:] + ', polar phase', T, 'q_theta', 'lam')
            j.zero(name[1:] + ' at the start', X.sub(X.substitute([lift(T)], {X.var('lam'): X.const(0)})[0], lift(ph[0 if name == 'dt' else 3])))
    def orbit():
        (consts, rr, w), R, eqs = setup()
        j.ex.merge = True
        C = j.P.stable
        par = (m.a, m.p, m.e, m.x)
        other = phases('b')
        want = [f(LAM) for f in C.stable_trajectory(*par, ph)]
        same(j, 'orbit trajectory', [f(LAM) for f in C.StableOrbit(*par, ph).trajectory()], want)
        same(j, 'orbit trajectory for given phases', [f(LAM) for f in C.StableOrbit(*par, other).trajectory(ph)], want)
        z = (K(0),) * 4
        want = [f(LAM) for f in C.stable_trajectory(*par, z)]
        same(j, 'default phases', [f(LAM) for f in C.stable_trajectory(*par)], want)
        same(j, 'orbit with default phases', [f(LAM) for f in C.StableOrbit(*par).trajectory()], want)
    smp = [dict(s, **{k + 'b': q(m.rnd, -5, 5) for k in ('q_t', 'q_r', 'q_theta', 'q_phi')}) for s in phase_samples(m, 4)]
    names = m.names + ('q_t', 'q_r', 'q_theta', 'q_phi', 'lam')
    j.check_sides = False
    import os
    want = os.environ.get('PART', 'radial polar constant jumps orbit')
    for k, fn in (('radial', radial), ('polar', polar), ('constant', constant), ('jumps', jumps), ('orbit', orbit)):
        if k in want:
            j.explore(fn, m.facts, smp, names, defs=m.defs, scope=j.name + ' ' + k)


def jobs(tier, seed):
    return [(n, job) for n in slices()]


META = {
    'budget': {'quick': 120, 'thorough': 400},
    'bounds': 'all 0 <= a < 1, p above the separatrix, 0 <= e < 1, x != 0 (16 slices with exact special values), every Mino time and initial phases; every number of radial and polar cycles',
    'outside': 'that the roots are those of the potentials (C01, C05) and r, theta obey their own equations (C07); the numerical accuracy of scipy.special',
    'stubs': ['separatrix: an unknown number between 1 and p', 'scipy elliptic functions and integrals: characterised by their algebraic relations, derivatives, special values and parity'],
}
