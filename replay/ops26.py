"""Tables of public computations for C26, used on symbolic values and on floats alike.

A subject s is a dict with the arguments; an operation maps (package, object, subject) to a list of values."""

UNITS = ('natural', 'mks', 'cgs')


def run(fs, x):
    return [f(x) for f in fs]


def orbit_ops(kind):
    ops = {
        'trajectory': lambda P, o, s: run(o.trajectory(), s['lam']),
        'trajectory given phases': lambda P, o, s: run(o.trajectory(s['ph2']), s['lam']),
        'trajectory in km and days': lambda P, o, s: run(o.trajectory(distance_units='km', time_units='days'), s['lam']),
        'trajectory given phases in units': lambda P, o, s: run(o.trajectory(s['ph2'], 'mks', 'mks'), s['lam']),
        'trajectory on an array': lambda P, o, s: run(o.trajectory(), s['arr']),
        'deltas': lambda P, o, s: run(o.trajectory_deltas(), s['lam']),
        'deltas given phases': lambda P, o, s: run(o.trajectory_deltas(s['ph2']), s['lam']),
        'deltas on an array': lambda P, o, s: run(o.trajectory_deltas(), s['arr']),
        'four-velocity': lambda P, o, s: run(o.four_velocity(), s['lam']),
        'four-velocity given phases': lambda P, o, s: run(o.four_velocity(s['ph2']), s['lam']),
        'four-velocity on an array': lambda P, o, s: run(o.four_velocity(), s['arr']),
        'constants': lambda P, o, s: list(o.constants_of_motion()),
        'constants in mks': lambda P, o, s: list(o.constants_of_motion('mks')),
        'constants in cgs': lambda P, o, s: list(o.constants_of_motion(units='cgs')),
    }
    if kind == 'stable':
        ops.update({
            'mino frequencies': lambda P, o, s: list(o.mino_frequencies()),
            'mino frequencies in mks': lambda P, o, s: list(o.mino_frequencies('mks')),
            'fundamental frequencies': lambda P, o, s: list(o.fundamental_frequencies()),
            'fundamental frequencies in mHz': lambda P, o, s: list(o.fundamental_frequencies('mHz')),
        })
    return ops


def make_stable(P, s):
    return P.stable.StableOrbit(*s['args'], s['ph'], s['M'], s['mu'])


def make_plunge(P, s):
    return P.plunge.PlungingOrbit(*s['args'], s['ph'], s['M'], s['mu'])


def make_orbit(P, s):
    return P.orbit.Orbit(s['a'], s['pos'], s['vel'], s['M'], s['mu'])


def stable_functions(inverse=False):
    C, F = (lambda P: P.constants), (lambda P: P.frequencies)
    ops = {
        'energy': lambda P, o, s: [C(P).energy(*s['args'])],
        'angular momentum': lambda P, o, s: [C(P).angular_momentum(*s['args'])],
        'angular momentum given E': lambda P, o, s: [C(P).angular_momentum(*s['args'], s['k'][0])],
        'carter constant': lambda P, o, s: [C(P).carter_constant(*s['args'])],
        'carter constant given E, L': lambda P, o, s: [C(P).carter_constant(*s['args'], s['k'][0], s['k'][1])],
        'constants of motion': lambda P, o, s: list(C(P).constants_of_motion(*s['args'])),
        'radial roots': lambda P, o, s: list(C(P).stable_radial_roots(*s['args'])),
        'radial roots given constants': lambda P, o, s: list(C(P).stable_radial_roots(*s['args'], s['k'])),
        'polar roots': lambda P, o, s: list(C(P).stable_polar_roots(*s['args'])),
        'polar roots given constants': lambda P, o, s: list(C(P).stable_polar_roots(*s['args'], s['k'])),
        'valid parameters': lambda P, o, s: [bool(C(P).valid_params(s['args'][0], s['args'][2], s['args'][3]))],
        'stability': lambda P, o, s: [bool(C(P).is_stable(*s['args']))],
        'scaled constants': lambda P, o, s: list(C(P).scale_constants(s['k'], s['M'], s['mu'])),
        'r frequency': lambda P, o, s: [F(P).r_frequency(*s['args'])],
        'theta frequency': lambda P, o, s: [F(P).theta_frequency(*s['args'])],
        'phi frequency': lambda P, o, s: [F(P).phi_frequency(*s['args'])],
        'gamma': lambda P, o, s: [F(P).gamma(*s['args'])],
        'phi frequency given constants': lambda P, o, s: [F(P).phi_frequency(*s['args'], constants=s['k'])],
        'gamma given constants': lambda P, o, s: [F(P).gamma(*s['args'], constants=s['k'])],
        'mino frequencies': lambda P, o, s: list(F(P).mino_frequencies(*s['args'])),
        'fundamental frequencies': lambda P, o, s: list(F(P).fundamental_frequencies(*s['args'])),
        'stable_trajectory': lambda P, o, s: run(P.stable.stable_trajectory(*s['args'], s['ph']), s['lam']),
        'stable_trajectory in units': lambda P, o, s: run(P.stable.stable_trajectory(*s['args'], s['ph'], s['M'], 'au', 'days'), s['lam']),
        **({} if not inverse else {'parameters from constants': lambda P, o, s: list(C(P).apex_from_constants(s['args'][0], *s['k']))}),
    }
    ops.update(shared_functions())
    return ops


def shared_functions():
    S = lambda P, s: P.spacetime.KerrSpacetime(s['args'][0], s['M'])
    U = 'distance_in_meters distance_in_cm distance_in_km distance_in_lightyears distance_in_au time_in_seconds time_in_days energy_in_joules energy_in_ergs angular_momentum_in_mks angular_momentum_in_cgs carter_constant_in_mks carter_constant_in_cgs frequency_in_Hz frequency_in_mHz'
    ops = {
        'metric': lambda P, o, s: list(S(P, s).metric(*s['pos']).flat),
        'norm': lambda P, o, s: [S(P, s).norm(*s['pos'], s['vel'])],
        'constants from initial conditions': lambda P, o, s: list(P.initial_conditions.constants_from_initial_conditions(s['args'][0], s['pos'], s['vel'])),
        'units': lambda P, o, s: [getattr(P.units, n)(s['mu'], s['M']) for n in U.split()] + [P.units.mass_in_kg(s['M'])],
        'spacetime four-velocity': lambda P, o, s: run(S(P, s).four_velocity(*[(lambda z, c=c: z * c) for c in s['pos']], s['k'], *s['vel'][:2], s['ph']), s['lam']),
    }
    return ops


def plunge_functions():
    ops = {
        'radial roots': lambda P, o, s: list(P.constants.plunging_radial_roots(*s['args'])),
        'mino frequencies': lambda P, o, s: list(P.frequencies.plunging_mino_frequencies(*s['args'])),
        'plunging_trajectory': lambda P, o, s: run(P.plunge.plunging_trajectory(*s['args'], s['ph']), s['lam']),
        'plunging_trajectory in units': lambda P, o, s: run(P.plunge.plunging_trajectory(*s['args'], s['ph'], s['M'], 'au', 'days'), s['lam']),
    }
    ops.update(shared_functions())
    return ops


def table(kind):
    """operations and how to make the object they act on"""
    if kind == 'stable orbit':
        return orbit_ops('stable'), make_stable
    if kind == 'plunging orbit':
        return orbit_ops('plunge'), make_plunge
    if kind in ('Orbit, stable', 'Orbit, plunging'):
        return orbit_ops('orbit'), make_orbit
    if kind == 'stable functions':
        return stable_functions(), lambda P, s: None
    return plunge_functions(), lambda P, s: None


def keepers(kind):
    """functions that are kept and evaluated later"""
    if kind.endswith('functions'):
        return {}
    return {'trajectory': lambda o, s: o.trajectory(), 'deltas': lambda o, s: o.trajectory_deltas(), 'four-velocity': lambda o, s: o.four_velocity()}
