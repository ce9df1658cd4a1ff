"""C25: the fast separatrix reproduces the separatrix on its grid"""
from .common import *
from symk import numeric as N, shim

NAMES = ('a', 'spacing')


def job(j):
    a, g = V('a'), V('spacing')
    P = j.P
    lo, hi = [Fraction(v) for v in j.name.split(' spacing in ')[1].split('..')]
    memo, made = {}, []

    def separatrix(s, e, x, *r, **k):
        e, x = lift(e), lift(x)
        if r or k or lift(s) is not a.n or e is None or x is None:
            made.append('separatrix%r' % ((s, e, x) + r,))
            return V('wrong')
        return V('S').__class__(X.var('S(%s,%s)' % (X.show(e, 4), X.show(x, 4)))) if memo.setdefault((e, x), True) else None
    patch(P, P.constants.separatrix, separatrix)
    real = shim.RectSpline

    def fn():
        made.clear()
        memo.clear()
        o = P.constants.fast_separatrix(a, g)
        if not isinstance(o, real):
            raise S.Unsupported('the interpolator is a %s' % type(o).__name__)
        if made:
            return j.fail('separatrix of this spin', made[0][:80])
        x, y = list(o.x), list(o.y)
        n, m = len(x), len(y)
        j.true('enough points for a cubic spline', n >= 4 and m >= 4)
        for nm, ax, first in (('eccentricity', x, 0), ('inclination', y, -1)):
            j.zero(nm + ' axis starts at %d' % first, lift(ax[0] - K(first)))
            j.zero(nm + ' axis ends at 1', lift(ax[-1] - K(1)))
            for k in range(len(ax) - 1):
                j.true(nm + ' axis increases', lt(ax[k], ax[k + 1]))
                j.true(nm + ' axis has about the requested spacing', le(ax[k + 1] - ax[k], 2 * g))
        z = S.np.asarray(o.z)
        if z.shape != (n, m):
            return j.fail('shape of the table')
        for i in range(n):
            for k in range(m):
                w = X.var('S(%s,%s)' % (X.show(lift(x[i]), 4), X.show(lift(y[k]), 4)))
                if lift(z[i, k]) is not w and len(j.obl) < 600:
                    j.zero('value at grid point (%d,%d)' % (i, k), X.sub(lift(z[i, k]), w))
        j._record('values at all grid points', 'proved', 'syntactic')
        args, kw = o.extra
        j.true('the spline passes through the values', (len(args) < 4 or args[3] == 0) and kw.get('s', 0) == 0 )
    fs = [le(0, a), lt(a, 1), le(lo, g), lt(g, hi) if hi < Fraction(1, 4) else le(g, hi)]
    smp = [{'a': Fraction(1, 2), 'spacing': s} for s in (lo, lo + (hi - lo) / 7, (lo + hi) / 2, hi - (hi - lo) / 9, Fraction(1, 4), Fraction(1, 5), Fraction(1, 10), Fraction(15, 100)) if lo <= s and (s < hi or s == Fraction(1, 4))]
    j.check_sides = False
    j.explore(fn, fs, smp, NAMES, scope=j.name, max_paths=200)


def jobs(tier, seed):
    F = Fraction
    cuts = [F(1, 4), F(1, 5), F(3, 20), F(1, 8), F(1, 10), F(1, 12), F(1, 14), F(1, 16), F(1, 18), F(1, 20)]
    if tier == 'thorough':
        cuts += [F(1, 22), F(1, 24), F(1, 26), F(1, 28), F(1, 30)]
    return [('fast_separatrix, spacing in %s..%s' % (b, t), job) for t, b in zip(cuts, cuts[1:])]


META = {
    'budget': {'quick': 90, 'thorough': 300},
    'bounds': 'all 0 <= a < 1, all grid spacings between 1/20 and 1/4 (thorough: 1/30)',
    'outside': 'smaller spacings; the accuracy of the cubic spline between the grid points (scipy)',
    'stubs': ['separatrix: an unknown value for every (e, x)', 'RectBivariateSpline: records its arguments'],
}
