"""C28: plots and animations show the trajectory"""
from .common import *
from symk import numeric as N
from symk import shim
import numpy as np

NAMES = ('a', 'lambda0', 'elevation', 'azimuth', 'lw', 'tau', 'q_t', 'q_r', 'q_theta', 'q_phi')
NAN = float('nan')
HIDE = {'all visible': lambda k: True, 'some hidden': lambda k: k % 3 != 1, 'ends hidden': lambda k: k % 4 in (1, 2)}


class Scene:
    """an orbit with an arbitrary trajectory: its values at the times of the grid are variables"""

    def __init__(self, j, a, times, own, given, visible, stable):
        self.j, self.a, self.times, self.own, self.given, self.visible = j, a, times, own, given, visible
        O = j.P.orbit.Orbit
        self.unknown = {}
        sc = self

        def trajectory(self, initial_phases=None, *s, **kw):
            return sc.functions(own if initial_phases is None else initial_phases)

        def is_visible(self, points, elevation, azimuth):
            return sc.sight(points, elevation, azimuth)
        O.trajectory, O.is_visible = trajectory, is_visible
        self.views = []
        o = self.o = object.__new__(O)
        o.a, o.initial_phases, o.stable = a, own, stable
        o.p, o.e, o.x, o.E, o.L, o.Q, o.M, o.mu = 10.0, 0.5, 0.3, 0.9, 2.0, 3.0, None, None

    def index(self, t):
        t = lift(t)
        for k, w in enumerate(self.times):
            if t is w.n:
                return k
        for k, w in enumerate(self.times):
            if self.j.ex.equal(X.sub(t, w.n), X.const(0)):
                return k
        return None

    def value(self, name, t):
        k = self.index(t)
        if k is None:
            n = 'other%d' % self.unknown.setdefault((name, lift(t)), len(self.unknown))
            self.j.ex._def(n, lambda env: Fraction(37, 11))
            return V(n)
        return V('%s_%d' % (name, k))

    def function(self, name):
        def f(t):
            if isinstance(t, np.ndarray):
                out = np.empty(t.shape, dtype=object)
                for i in np.ndindex(t.shape):
                    out[i] = self.value(name, t[i])
                return out.view(shim.SArr)
            return self.value(name, t)
        return f

    def functions(self, phases):
        s = None
        for tag, p in (('o', self.own), ('g', self.given)):
            if phases is p or (len(phases) == 4 and all(lift(u) is lift(v) for u, v in zip(phases, p))):
                s = tag
        return tuple(self.function(c + (s or 'x')) for c in ('t', 'r', 'th', 'ph'))

    def position(self, s, k):
        r, th, ph = (V('%s%s_%d' % (c, s, k)) for c in ('r', 'th', 'ph'))
        return [r * sin(th) * cos(ph), r * sin(th) * sin(ph), r * cos(th)]

    def sight(self, points, elevation, azimuth):
        self.views.append((elevation, azimuth))
        out = np.zeros(len(points), dtype=bool)
        for m, row in enumerate(np.asarray(points)):
            for s in 'og':
                for k in range(len(self.times)):
                    if all(lift(u) is lift(v) for u, v in zip(row, self.position(s, k))):
                        out[m] = self.visible(k)
        return out


def log(j):
    out = []
    for m in j.P.shims.values():
        if isinstance(m, shim.PlotModule) and not any(m._log is l for l in out):
            out.append(m._log)
    return out


def calls(logs, *suffix):
    return [e for l in logs for e in l if any(e[0].endswith('.' + s) for s in suffix)]


def arg(call, k, *names):
    """positional or keyword argument of a recorded call"""
    _, a, kw = call
    for n in names:
        if n in kw:
            return kw[n]
    return a[k] if k is not None and k < len(a) else None


def missing(j, name):
    j._record(name, 'unresolved', 'drawn by a call that is not modelled')


def flat(v):
    return list(np.ravel(np.asarray(v, dtype=object)))


def is_nan(v):
    return isinstance(v, float) and v != v


def path(j, name, segs, P, visible, k0, k1):
    """the segments joining the points k0..k1-1"""
    segs = np.asarray(segs, dtype=object) if len(segs) else np.empty((0, 2, 3), dtype=object)
    n = max(0, k1 - k0 - 1)
    if segs.shape != (n, 2, 3):
        return j.fail(name, 'has %s segments for %d points' % (segs.shape, k1 - k0))
    for m in range(n):
        k = k0 + m
        both = visible(k) and visible(k + 1)
        gone = any(is_nan(v) for v in segs[m].flat)
        if both == gone:
            j.fail('%s %d' % (name, m), 'drawn' if both is False else 'not drawn')
        elif both:
            same(j, '%s %d' % (name, m), list(segs[m][0]) + list(segs[m][1]), P[k] + P[k + 1])


def limit(j, name, which, bound, values):
    """bound is not above (which = 0) or not below (1) any of the values"""
    b = lift(bound)
    ext = j.ex.extremes
    for n, v in enumerate(values):
        v = lift(v)
        for x in [x for x in X.walk([b]) if x in ext]:
            kind, els = ext[x]
            for u in (v, X.neg(v), X.fn('abs', v), X.fn('abs', X.neg(v))):
                if u in els:
                    j.ex.assume(X.le(x, u) if kind == 'min' else X.le(u, x))
                    break
        j.true('%s %d' % (name, n), X.le(b, v) if which == 0 else X.le(v, b))


def pair(call):
    lo, hi = arg(call, 0, 'left', 'bottom', 'xmin', 'ymin', 'zmin'), arg(call, 1, 'right', 'top', 'xmax', 'ymax', 'zmax')
    if hi is None and lo is not None:
        lo, hi = lo
    return lo, hi


def limits(j, logs, last):
    out = []
    for c in 'xyz':
        e = calls(logs, 'set_%slim' % c, 'set_%slim3d' % c)
        out.append(pair(e[-1]) if e else None)
    return out


def hole(j, logs, a, full):
    e = calls(logs, 'plot_surface')
    if len(e) != 1:
        return missing(j, 'sphere')
    x, y, z = (flat(arg(e[0], k, c)) for k, c in enumerate(('X', 'Y', 'Z')))
    rh = 1 + sqrt(1 - a * a)
    if full:
        for k, p in list(enumerate(zip(x, y, z)))[::7]:
            j.zero('sphere point %d' % k, p[0] ** 2 + p[1] ** 2 + p[2] ** 2 - rh * rh)
        for n, c, f in (('z', z, Fraction(99, 100)), ('x', x, Fraction(9, 10)), ('y', y, Fraction(9, 10))):
            for sg in (1, -1):
                env = j.ex._live[0]
                best = max(c, key=lambda v: sg * N.evalf(lift(v), env))
                j.true('sphere reaches %s%s' % ('+' if sg > 0 else '-', n), lt(f * rh, sg * best))





def times(l0, rng, n):
    return [l0 + Fraction(k, n - 1) * rng if n > 1 else l0 for k in range(n)]


def samples(j, n, extra=()):
    rnd = random.Random('c28 %s %s' % (j.name, j.seed))
    out = []
    for _ in range(3):
        s = dict(a=q(rnd, 0, 1), lambda0=q(rnd, -3, 3), elevation=q(rnd, -80, 80), azimuth=q(rnd, -180, 180), lw=q(rnd, 1, 3), tau=q(rnd, Fraction(1, 2), 4))
        s.update({c: q(rnd, -4, 4) for c in ('q_t', 'q_r', 'q_theta', 'q_phi')})
        s.update({'p_%d' % k: q(rnd, -4, 4) for k in range(4)})
        for k in range(n):
            for t in 'ogx':
                s.update({'t%s_%d' % (t, k): q(rnd, -9, 9), 'r%s_%d' % (t, k): q(rnd, 1, 12), 'th%s_%d' % (t, k): q(rnd, 0, 3), 'ph%s_%d' % (t, k): q(rnd, -9, 9)})
            s.update({'%s_%d' % (c, k): q(rnd, 3, 60) for c in ('az', 'el', 'ro', 'li')})
        out.append(s)
    return out


def setup(j, fixed=None):
    for l in log(j):
        l.clear()
    j.ex.extremes = {}
    j.ex.fixed_extremes = fixed


def plot(j):
    n, hide, ph, spin = j.name.split(': ')[1].split(', ')
    n = int(n.split()[0])
    a = V('a')
    l0, el, az, lw, tau = (V(k) for k in NAMES[1:6])
    given, own = tuple(V(k) for k in NAMES[6:]), tuple(V('p_%d' % k) for k in range(4))
    dens, rng = 40, Fraction(4 * n + 1, 160)
    grid, axes = (n % 2 == 0), (n % 3 != 0)

    def fn():
        setup(j)
        ts = times(l0, rng, n)
        s = 'o' if ph == 'own phases' else 'g'
        sc = Scene(j, a, ts, own, given, HIDE[hide], spin == 'stable')
        out = sc.o.plot(l0, l0 + rng, el, az, None if s == 'o' else given, grid, axes, lw, 'blue', tau, dens)
        if not isinstance(out, tuple) or len(out) != 2:
            j.fail('returns figure and axes')
        logs = log(j)
        P = [sc.position(s, k) for k in range(n)]
        e = calls(logs, 'Line3DCollection')
        if len(e) != 1:
            missing(j, 'path')
        else:
            segs = arg(e[0], 0, 'segments', 'lines')
            for c in calls(logs, 'set_segments'):
                segs = arg(c, 0, 'segments')
            path(j, 'segment', segs, P, HIDE[hide], 0, n)
            w = arg(e[0], None, 'linewidth', 'linewidths', 'lw')
            for c in calls(logs, 'set_linewidth', 'set_linewidths', 'set_lw'):
                w = arg(c, 0, 'lw')
            if w is None:
                missing(j, 'line width')
            elif len(flat(w)) < n - 1:
                j.fail('line width', 'too few')
            else:
                for k in range(n - 1):
                    same(j, 'line width %d' % k, flat(w)[k], Fraction(1, 10) + lw * Sym(X.fn('exp', lift(-(ts[-1] - ts[k]) / tau))))
        e = calls(logs, 'scatter', 'scatter3D')
        if len(e) != 1 or len(e[0][1]) < 3:
            missing(j, 'body')
        else:
            b = [flat(v) for v in e[0][1][:3]]
            if any(len(v) != 1 for v in b):
                j.fail('body', 'is not one point')
            else:
                same(j, 'body', [v[0] for v in b], P[-1])
        hole(j, logs, a, n == 2 and hide == 'all visible')
        rh = 1 + sqrt(1 - a * a)
        for c, l, k in zip('xyz', limits(j, logs, None), range(3)):
            if l is None:
                missing(j, 'limits of ' + c)
                continue
            pts = [p[k] for p in P]
            limit(j, 'lower limit of ' + c, 0, l[0], pts)
            limit(j, 'upper limit of ' + c, 1, l[1], pts)
            j.true('limits of %s and the sphere' % c, X.cand(le(l[0], Fraction(-99, 100) * rh), le(Fraction(99, 100) * rh, l[1])))
        e = calls(logs, 'view_init')
        if not e:
            missing(j, 'view')
        else:
            same(j, 'view', [arg(e[-1], 0, 'elev'), arg(e[-1], 1, 'azim'), arg(e[-1], 2, 'roll') or K(0)], [el, az, K(0)])
        for v in sc.views:
            same(j, 'visibility from the view', list(v), [el, az])
        off = any(arg(c, 0, 'visible', 'b') is False for c in calls(logs, 'grid'))
        if off == grid:
            missing(j, 'grid')
        off = any(arg(c, 0, 'arg') in ('off', False) for c in calls(logs, 'axis')) or bool(calls(logs, 'set_axis_off'))
        if off == axes:
            missing(j, 'axes')
    j.check_sides = False
    j.explore(fn, [le(0, a), lt(a, 1), lt(0, tau), lt(0, lw)], samples(j, n), NAMES, scope='plot ' + j.name)


PANS = (('az', 'azimuthal_pan'), ('el', 'elevation_pan'), ('ro', 'roll'), ('li', 'axis_limit'))


def animate(j):
    frames, step, tail, hide, ph, pan = j.name.split(': ')[1].split(', ')
    frames, step, tail = int(frames.split()[0]), int(step.split()[1]), int(tail.split()[1])
    n = frames * step + step - 1
    a = V('a')
    l0, el, az, lw, tau = (V(k) for k in NAMES[1:6])
    given, own = tuple(V(k) for k in NAMES[6:]), tuple(V('p_%d' % k) for k in range(4))
    rng = Fraction(4 * n + 1, 960)
    stable = hide != 'some hidden'
    use = () if pan == 'fixed view' else PANS if pan == 'everything moves' else PANS[:1] if pan == 'pan' else PANS[1:3]
    comp = pan in ('everything moves', 'fixed view')

    only_limits = pan == 'limits'

    def fn():
        setup(j, None if only_limits else Fraction(50))
        ts = times(l0, rng, n)
        s = 'o' if ph == 'own phases' else 'g'
        sc = Scene(j, a, ts, own, given, HIDE[hide], stable)
        kw = {name: sc.function(c) for c, name in use}
        sc.o.animate('unused', l0, l0 + rng, el, az, None if s == 'o' else given, True, False, 'blue', tau, tail / 240 + 0.002, 2,
                     speed=step / 8, background_color=None if stable else 'black', plot_components=comp, **kw)
        logs = log(j)
        P = [sc.position(s, k) for k in range(n)]
        hole(j, logs, a, False)
        e = calls(logs, 'FuncAnimation')
        if len(e) != 1:
            return missing(j, 'animation')
        draw, count, fargs = arg(e[0], 1, 'func'), arg(e[0], 2, 'frames'), arg(e[0], 3, 'fargs') or ()
        if 'fargs' not in e[0][2] and len(e[0][1]) < 5:
            fargs = ()
        if not isinstance(count, int):
            try:
                count = len(count)
            except TypeError:
                return missing(j, 'frames')
        f = calls(logs, 'FFMpegWriter', 'save')
        fps = [arg(c, None, 'fps') for c in f if arg(c, None, 'fps') is not None]
        if fps:     # speed in units of Mino time per second
            same(j, 'speed', fps[0] * Fraction(step, 240), Fraction(step, 8))
        if count != frames:
            return j.fail('number of frames', '%s instead of %d' % (count, frames))
        if only_limits:
            lims = limits(j, logs, None)
            for c, l, k in zip('xyz', lims, range(3)):
                if l is None:
                    missing(j, 'limits of ' + c)
                    continue
                rh = 1 + sqrt(1 - a * a)
                # the three axes have the same limits: the coordinate of each axis is compared with its own
                same(j, 'symmetric limits of ' + c, l[0], -Sym(lift(l[1])))
                pts = [p[k] for p in P]
                limit(j, 'lower limit of ' + c, 0, l[0], pts)
                limit(j, 'upper limit of ' + c, 1, l[1], pts)
                j.true('limits of %s and the sphere' % c, le(Fraction(99, 100) * rh, l[1]))
            return
        for i in range(frames):
            for l in logs:
                l.clear()
            sc.views.clear()
            if use:         # the view may move: other points are hidden
                sc.visible = lambda k, i=i: HIDE[hide](k + i)
            draw(i, *fargs)
            frame(j, sc, 'frame %d' % i, logs, i * step, tail, P, s, ts)

    def frame(j, sc, name, logs, k, tail, P, s, ts):
        k0 = max(0, k - tail)
        val = {c: V('%s_%d' % (c, k)) for c, _ in use}
        view = [val.get('el', el), val.get('az', az), val.get('ro', K(0))]
        e = calls(logs, 'view_init')
        if not e:
            missing(j, name + ': view')
        else:
            got = [arg(e[-1], 0, 'elev'), arg(e[-1], 1, 'azim'), arg(e[-1], 2, 'roll')]
            same(j, name + ': view', [0 if g is None else g for g in got], view)
        if k - k0 > 0:
            for v in sc.views:
                same(j, name + ': visibility from the view', list(v), view[:2])
        e = calls(logs, 'set_segments')
        if not e:
            missing(j, name + ': tail')
        else:
            path(j, name + ': segment', arg(e[-1], 0, 'segments'), P, sc.visible, k0, k)
        e = calls(logs, 'set_alpha')
        if k - k0 > 1:
            if not e:
                missing(j, name + ': opacity')
            else:
                al = flat(arg(e[-1], 0, 'alpha'))
                if len(al) < k - k0 - 1:
                    j.fail(name + ': opacity', 'too few')
                else:
                    for m in range(k - k0 - 1):
                        same(j, '%s: opacity %d' % (name, m), al[m], Fraction(1, 10) + Fraction(9, 10) * Sym(X.fn('exp', lift(-(ts[k - 1] - ts[k0 + m]) / V('tau')))))
        e = [c for l in logs for c in l if c[0].endswith('._offsets3d=')]
        if not e:
            missing(j, name + ': body')
        else:
            b = [flat(v) for v in e[-1][1][0]]
            if [len(v) for v in b] != [1, 1, 1]:
                j.fail(name + ': body', 'is not one point')
            else:
                same(j, name + ': body', [v[0] for v in b], P[k])
        if 'li' in val:
            for c, l in zip('xyz', limits(j, logs, None)):
                if l is None:
                    missing(j, '%s: limits of %s' % (name, c))
                else:
                    same(j, '%s: limits of %s' % (name, c), list(l), [-val['li'], val['li']])
        if comp:
            e = calls(logs, 'set_data')
            if len(e) != 4:
                return missing(j, name + ': components')
            seen = set()
            for c, call in zip(('t', 'r', 'th', 'ph'), e):
                x, y = flat(arg(call, 0)), flat(arg(call, 1))
                if len(x) != k or len(y) != k:
                    j.fail('%s: component %s' % (name, c), 'has %d points' % len(x))
                else:
                    same(j, '%s: times of component %s' % (name, c), x, ts[:k])
                    same(j, '%s: component %s' % (name, c), y, [V('%s%s_%d' % (c, s, m)) for m in range(k)])
                seen.add(call[0])
            if len(seen) != 4:
                j.fail(name + ': components', 'drawn into the same axes')
    j.check_sides = False
    j.explore(fn, [le(0, a), lt(a, 1), lt(0, tau), lt(0, lw)], samples(j, n), NAMES, scope='animate ' + j.name, max_paths=400)


def jobs(tier, seed):
    out = []
    for k, n in enumerate((1, 2, 3, 5, 8) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 12, 20)):
        for m, h in enumerate(HIDE):
            if tier == 'quick' and n in (1, 2) and m:
                continue
            out.append(('plot: %d points, %s, %s, %s' % (n, h, ('own phases', 'given phases')[(k + m) % 2], ('stable', 'plunging')[k % 2]), plot))
    cfg = [(3, 1, 1, 'all visible', 'given phases', 'limits'), (2, 1, 1, 'some hidden', 'own phases', 'limits'), (5, 1, 1, 'all visible', 'given phases', 'fixed view'), (4, 2, 3, 'some hidden', 'own phases', 'everything moves'), (3, 4, 100, 'ends hidden', 'given phases', 'pan'), (2, 8, 6, 'some hidden', 'own phases', 'tilt'), (2, 20, 4, 'all visible', 'own phases', 'fixed view'), (2, 36, 40, 'all visible', 'given phases', 'tilt')]
    if tier != 'quick':
        cfg += [(8, 2, 5, 'some hidden', 'given phases', 'fixed view'), (6, 4, 7, 'all visible', 'own phases', 'everything moves'), (4, 8, 12, 'ends hidden', 'given phases', 'pan'), (2, 24, 20, 'some hidden', 'given phases', 'tilt')]
    return out + [('animate: %d frames, step %d, tail %d, %s, %s, %s' % c, animate) for c in cfg]


META = {
    'budget': {'quick': 120, 'thorough': 500},
    'bounds': 'plots of 1 to 8 points (thorough: 20), animations of 2 to 5 frames with 1 to 8 points per frame (thorough: 8 frames, 24 points) with tails shorter and longer than the animation; any values of the trajectory at the times of the grid, any spin, starting time, view, decay constant and line width, pan, roll and limit functions; own and given phases',
    'outside': 'colours, fonts, the video encoder, the projection by matplotlib; which points are hidden (C22) is given by three patterns',
    'stubs': ['the frames of an animation are examined with its initial axis limits fixed to a number; the limits on their own', 'the trajectory: unknown values at each time', 'is_visible (C22): three patterns', 'matplotlib and tqdm: recorders of the calls', 'extremes of many values: unknown numbers bounded by those values'],
}
