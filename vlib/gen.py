"""Random problem definitions (plain data, in terms of the reference's enumerations)."""

import copy
import importlib

import numpy as np

from vlib import prob as vp

R = 'aviary_ref'


def ref(mod, name=None):
    m = importlib.import_module(f'{R}.{mod}')
    return getattr(m, name) if name else m


LENGTH = ['ft', 'm', 'km', 'NM', 'mi', 'inch']
MASS = ['lbm', 'kg', 't']
TIME = ['s', 'min', 'h']
SPEED = ['kn', 'm/s', 'ft/s', 'km/h']
ANGLE = ['deg', 'rad']
FORCE = ['lbf', 'N', 'kN']
FAMILIES = [LENGTH, MASS, TIME, SPEED, ANGLE, FORCE]

# a typical size of each quantity (value, units)
SIZE = {
    'mass': (70e3, 'kg'), 'distance': (1500e3, 'm'), 'altitude': (30000.0, 'ft'), 'mach': (0.7, 'unitless'),
    'throttle': (0.7, 'unitless'), 'time': (60.0, 'min'), 'velocity': (250.0, 'kn'), 'angle_of_attack': (6.0, 'deg'),
    'flight_path_angle': (5.0, 'deg'), 'normal': (1e4, 'lbf'), 'pitch_constraint': (12.0, 'deg'),
    'time_initial': (60.0, 'min'), 'time_duration': (60.0, 'min'), 'EAS_constraint': (250.0, 'kn'),
}
SUFFIX = ['_initial', '_final', '_bounds', '_ref', '_ref0', '_defect_ref', '_constraint_ref', '_solve_segments',
          '_polynomial_order', '_optimize', '_direct_link', '_target', '_constraint_eq', '_constraint_bounds']


def stem_of(name):
    if name in ('time_initial', 'time_duration'):
        return name, ''
    for s in sorted(SUFFIX, key=len, reverse=True):
        if name.endswith(s):
            return name[: -len(s)], s
    return name, None


_OPTS = {}


def declared_options(eom, user_options, phase_type=None):
    """{name: default} of the options the reference declares for this phase."""
    key = (eom, str(user_options.get('phase_type')), bool(user_options.get('ground_roll')))
    if key not in _OPTS:
        cls = phase_class(eom, user_options)
        o = cls.default_options_class({})
        _OPTS[key] = {n: m['val'] for n, m in o._dict.items()}
    return _OPTS[key]


def phase_class(eom, user_options):
    pt = user_options.get('phase_type')
    pt = pt.name if pt is not None and hasattr(pt, 'name') else None
    if eom == 'ES':
        return ref('mission.energy_state.phases.energy_phase', 'EnergyPhase') if _has('mission.energy_state.phases.energy_phase') else ref('mission.flight_phase_builder', 'FlightPhaseBase')
    if eom == '2DOF':
        m = 'mission.two_dof.phases.'
        if pt == 'TWO_DOF_TAKEOFF':
            return ref(m + 'takeoff_phase', 'TakeoffPhase')
        if pt == 'ACCEL':
            return ref(m + 'accel_phase', 'AccelPhase')
        if pt == 'SIMPLE_CRUISE':
            return ref(m + 'simple_cruise_phase', 'SimpleCruisePhase')
        if pt == 'BREGUET_RANGE':
            return ref(m + 'breguet_cruise_phase', 'BreguetCruisePhase')
        return ref(m + 'flight_phase', 'FlightPhase')
    m = 'mission.solved_two_dof.phases.'
    if user_options.get('ground_roll') and not user_options.get('rotation'):
        mod = ref(m + 'groundroll_phase')
        return mod.GroundrollPhase
    mod = ref(m + 'solved_twodof_phase')
    return mod.SolvedTwoDOFPhase


def _has(mod):
    try:
        importlib.import_module(f'{R}.{mod}')
        return True
    except ImportError:
        return False


def reunit(rng, val, units):
    """The same quantity in another unit of its family."""
    from openmdao.utils.units import convert_units, is_compatible

    if units is None or units == 'unitless':
        return val, units
    for fam in FAMILIES:
        if any(is_compatible(units, u) for u in fam):
            new = str(rng.choice(fam))

            def c(v):
                if v is None:
                    return None
                if isinstance(v, tuple):
                    return tuple(c(x) for x in v)
                if isinstance(v, list):
                    return [c(x) for x in v]
                if isinstance(v, np.ndarray):
                    return np.array([c(x) for x in v])
                return float(convert_units(v, units, new))

            return c(val), new
    return val, units


def quantity(rng, stem, lo=0.2, hi=1.5, units=None):
    base, u = SIZE.get(stem, (1.0, 'unitless'))
    v = float(np.round(base * rng.uniform(lo, hi), 6))
    if rng.random() < 0.6:
        v, u = reunit(rng, v, u)
    return v, u


def unit_for(rng, stem):
    _, u = SIZE.get(stem, (1.0, 'unitless'))
    return reunit(rng, 1.0, u)[1]


def to_units(v, u, target):
    from openmdao.utils.units import convert_units

    if u in (None, 'unitless') or u == target or target in (None, 'unitless'):
        return v
    try:
        return float(convert_units(v, u, target))
    except TypeError:
        return v


def mutate_option(rng, uo, name, default, eom):
    """Give option `name` of user options `uo` a random value of its kind; returns a label or None."""
    stem, suf = stem_of(name)
    cur = uo.get(name)
    if name in ('num_segments',):
        uo[name] = int(rng.integers(1, 5))
    elif name == 'order':
        uo[name] = int(rng.choice([3, 5, 4]))
    elif name == 'throttle_enforcement':
        uo[name] = [
            'path_constraint', 'boundary_constraint', 'bounded', 'control', None][int(rng.integers(5))]
    elif name == 'throttle_allocation':
        E = ref('variable_info.enums', 'ThrottleAllocation')
        uo[name] = [E.FIXED, E.STATIC, E.DYNAMIC][int(rng.integers(3))]
    elif name == 'required_available_climb_rate':
        uo[name] = (float(np.round(rng.uniform(10, 500), 3)), str(rng.choice(['ft/min', 'ft/s', 'm/s'])))
    elif name in ('no_climb', 'no_descent'):
        uo[name] = bool(rng.random() < 0.7)
    elif name == 'target_distance':
        v = float(np.round(rng.uniform(50, 1500), 3))
        uo[name] = reunit(rng, v, 'nmi') if rng.random() < 0.7 else (v, 'nmi')
    elif name == 'constraints':
        uo[name] = constraints(rng, eom)
    elif name == 'transcription' and eom == 'ES':
        T = ref('variable_info.enums', 'Transcription')
        uo[name] = T.PICARDSHOOTING if rng.random() < 0.25 else T.COLLOCATION
    elif suf == '_optimize' or suf == '_direct_link':
        uo[name] = bool(rng.random() < 0.5)
    elif suf == '_solve_segments':
        return None
    elif suf == '_polynomial_order':
        uo[name] = [None, 1, 2, 3][int(rng.integers(4))]
    elif name in ('time_initial', 'time_duration'):
        if rng.random() < 0.3 or (name == 'time_initial' and rng.random() < 0.5):
            uo[name] = (None, str(rng.choice(TIME)))
        elif eom == 'S2DOF':
            q = [x for x in (uo.get('time_duration_bounds'), uo.get('time_initial_bounds')) if x is not None]
            if not q or q[0][0][1] is None:
                return None
            uo[name] = (float(q[0][0][1]) * float(np.round(rng.uniform(0.3, 0.9), 4)), q[0][1])
        else:
            uo[name] = quantity(rng, name, 0.3, 1.5)
    elif suf in ('_initial', '_final'):
        if rng.random() < 0.35:
            uo[name] = (None, unit_for(rng, stem))
        elif cur is not None and isinstance(cur, tuple) and cur[0] is not None:
            v, u = cur
            uo[name] = reunit(rng, float(v) * float(np.round(rng.uniform(0.9, 1.1), 4)), u)
        else:
            uo[name] = quantity(rng, stem, 0.4, 1.1)
    elif suf == '_bounds':
        b = uo.get(name)
        if isinstance(b, tuple) and isinstance(b[0], tuple):
            (lo, hi), u = b
        else:
            base, u = SIZE.get(stem, (1.0, 'unitless'))
            lo, hi = 0.0, 2.0 * base
        if lo is not None:
            lo = float(lo) * float(np.round(rng.uniform(0.5, 1.0), 4))
        if hi is not None:
            hi = float(hi) * float(np.round(rng.uniform(1.0, 1.6), 4))
        r = rng.random()
        if r < 0.2:
            lo = None
        elif r < 0.4:
            hi = None
        if stem == 'time_duration' and (lo is None or hi is None) and rng.random() < 0.7:
            lo, hi = (b[0] if isinstance(b, tuple) and isinstance(b[0], tuple) else (10.0, 100.0))
        uo[name] = reunit(rng, (lo, hi), u) if rng.random() < 0.6 else ((lo, hi), u)
    elif eom == 'S2DOF' and stem in ('time_initial', 'time_duration') and suf in ('_ref', '_ref0'):
        bu = uo.get(stem + '_bounds')
        if bu is None:
            return None
        uo[name] = (float(np.round(rng.uniform(50, 5000), 2)), bu[1])
    elif suf in ('_ref', '_defect_ref', '_constraint_ref'):
        q = quantity(rng, stem, 0.1, 3.0)
        uo[name] = q
        bu = uo.get(stem + '_bounds')
        # the options of one variable are documented to share the units of its bounds
        if isinstance(bu, tuple) and rng.random() < 0.7:
            uo[name] = (to_units(q[0], q[1], bu[1]), bu[1])
    elif suf == '_ref0':
        q = quantity(rng, stem, 0.01, 0.09)
        uo[name] = q
        bu = uo.get(stem + '_bounds')
        if isinstance(bu, tuple) and rng.random() < 0.7:
            uo[name] = (to_units(q[0], q[1], bu[1]), bu[1])
    elif name == 'EAS_target':
        uo[name] = reunit(rng, float(rng.uniform(230, 330)), 'kn')
    elif name in ('mach_target', 'mach_cruise'):
        uo[name] = (float(np.round(rng.uniform(0.7, 0.82), 4)), 'unitless')
    elif name == 'alt_cruise':
        uo[name] = reunit(rng, float(np.round(rng.uniform(30e3, 38e3), 1)), 'ft')
    elif name == 'alt':
        uo[name] = reunit(rng, float(np.round(rng.uniform(400, 1500), 1)), 'ft')
    elif name == 'EAS_constraint_eq':
        uo[name] = reunit(rng, float(rng.uniform(230, 270)), 'kn')
    elif name == 'input_speed_type' and cur is not None:
        S = ref('variable_info.enums', 'SpeedType')
        uo[name] = [S.MACH, S.EAS][int(rng.integers(2))]
    elif name in ('pitch_constraint_bounds',):
        uo[name] = reunit(rng, (0.0, float(rng.uniform(10, 20))), 'deg')
    else:
        return None
    return name


CON = [
    ('flight_path_angle', ['deg', 'rad'], (-4, 8)),
    ('altitude_rate', ['ft/min', 'm/s'], (-300, 900)),
    ('distance', ['nmi', 'km'], (10, 900)),
    ('mass', ['lbm', 'kg'], (1e5, 1.5e5)),
    ('throttle', ['unitless'], (0.1, 0.9)),
    ('altitude', ['ft', 'm'], (1000, 30000)),
    ('mach', ['unitless'], (0.2, 0.8)),
    ('drag', ['lbf', 'N'], (5000, 30000)),
]


def constraints(rng, eom):
    D = ref('variable_info.variables', 'Dynamic')
    names = {
        'altitude_rate': D.Mission.ALTITUDE_RATE, 'distance': D.Mission.DISTANCE, 'mass': D.Vehicle.MASS,
        'throttle': D.Vehicle.Propulsion.THROTTLE, 'altitude': D.Mission.ALTITUDE, 'mach': D.Atmosphere.MACH,
        'drag': D.Vehicle.DRAG, 'flight_path_angle': D.Mission.FLIGHT_PATH_ANGLE,
    }
    out = {}
    for _ in range(int(rng.integers(1, 3))):
        n, us, (lo, hi) = CON[int(rng.integers(len(CON)))]
        c = {'units': str(rng.choice(us))}
        kind = rng.choice(['boundary', 'path'])
        c['type'] = str(kind)
        if kind == 'boundary':
            c['loc'] = str(rng.choice(['initial', 'final']))
        r = rng.random()
        a, b = sorted(np.round(rng.uniform(lo, hi, 2), 4).tolist())
        if r < 0.35:
            c['equals'] = a
        elif r < 0.6:
            c['lower'] = a
        elif r < 0.8:
            c['upper'] = b
        else:
            c['lower'], c['upper'] = a, b
        if rng.random() < 0.5:
            c['ref'] = float(np.round(rng.uniform(1, 2) * max(abs(a), 0.1), 4))
        out[names[n]] = c
    return out


# ----------------------------------------------------------------------------- missions
def energy_mission(rng, rich=True, cheap=True):
    """A constructive energy-state mission: regular phases, then reserve phases."""
    ncl, ncr, nde = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 0, 1), (0, 1, 0), (1, 1, 0)][
        int(rng.choice(7, p=[0.46, 0.12, 0.12, 0.1, 0.08, 0.06, 0.06]))]
    cruise_alt = float(np.round(rng.uniform(28e3, 37e3), 0))
    cruise_mach = float(np.round(rng.uniform(0.68, 0.8), 3))
    pi = {'pre_mission': {'include_takeoff': False, 'optimize_mass': True}}
    alts, machs, kinds = [], [], []
    a, m = float(rng.choice([0.0, 0.0, 1000.0, 500.0])), float(np.round(rng.uniform(0.2, 0.3), 3))
    if ncl == 0:
        a, m = cruise_alt, cruise_mach
    pts = [(a, m)]
    for i in range(ncl):
        f = (i + 1) / ncl
        pts.append((a + (cruise_alt - a) * f, m + (cruise_mach - m) * f))
        kinds.append('climb')
    step = float(rng.choice([0.0, 1000.0, 2000.0]))
    for i in range(ncr):
        pts.append((pts[-1][0] + step, cruise_mach))
        kinds.append('cruise')
    top = pts[-1]
    for i in range(nde):
        f = (i + 1) / nde
        pts.append((top[0] + (500.0 - top[0]) * f, top[1] + (0.36 - top[1]) * f))
        kinds.append('descent')
    t0 = 0.0
    count = {}
    for i, k in enumerate(kinds):
        count[k] = count.get(k, 0) + 1
        name = k if kinds.count(k) == 1 else f'{k}{count[k]}'
        dur = {'climb': (20.0, 120.0), 'cruise': (50.0, 300.0), 'descent': (15.0, 80.0)}[k]
        (a0, m0), (a1, m1) = pts[i], pts[i + 1]
        uo = {
            'num_segments': int(rng.choice([1, 2, 3])), 'order': 3,
            'mach_optimize': False, 'mach_initial': (m0, 'unitless'), 'mach_final': (m1, 'unitless'),
            'mach_bounds': ((min(m0, m1) - 0.02, max(m0, m1) + 0.02), 'unitless'),
            'mach_polynomial_order': int(rng.choice([1, 3])),
            'altitude_optimize': False, 'altitude_initial': (a0, 'ft'), 'altitude_final': (a1, 'ft'),
            'altitude_bounds': ((max(0.0, min(a0, a1) - 500), max(a0, a1) + 2000), 'ft'),
            'altitude_polynomial_order': int(rng.choice([1, 3])),
            'throttle_enforcement': 'path_constraint',
            'time_duration_bounds': (dur, 'min'),
        }
        if i == 0:
            uo['time_initial'] = (0.0, 'min')
        else:
            uo['time_initial_bounds'] = ((t0 * 0.4, t0 * 1.6), 'min')
        ph = {'subsystem_options': {'aerodynamics': {'method': 'computed'}}, 'user_options': uo}
        if rng.random() < 0.6:
            ph['initial_guesses'] = energy_guesses(rng, k, t0, sum(dur) / 2, (a0, a1), (m0, m1))
        pi[name] = ph
        t0 += sum(dur) / 2
    labels = ['+'.join(kinds)]
    if rng.random() < 0.45:
        nres = int(rng.choice([1, 1, 2]))
        for r in range(nres):
            name = ['reserve_cruise', 'reserve_hold', 'diversion'][(r + int(rng.integers(3))) % 3]
            while name in pi:
                name += '_x'
            ra = float(np.round(rng.uniform(15e3, 30e3), 0))
            rm = float(np.round(rng.uniform(0.4, 0.6), 3))
            uo = {
                'num_segments': int(rng.choice([1, 2])), 'order': 3, 'reserve': True,
                'mach_optimize': False, 'mach_initial': (rm, 'unitless'), 'mach_final': (rm, 'unitless'),
                'mach_bounds': ((rm - 0.05, rm + 0.05), 'unitless'), 'mach_polynomial_order': 1,
                'altitude_optimize': False, 'altitude_initial': (ra, 'ft'), 'altitude_final': (ra, 'ft'),
                'altitude_bounds': ((ra - 1000, ra + 1000), 'ft'), 'altitude_polynomial_order': 1,
                'throttle_enforcement': 'path_constraint',
                'time_initial_bounds': ((t0 * 0.4, t0 * 1.6), 'min'),
                'time_duration_bounds': ((10.0, 60.0), 'min'),
            }
            if rng.random() < 0.5:
                uo['target_distance'] = reunit(rng, float(np.round(rng.uniform(80, 300), 2)), 'nmi')
            else:
                uo['time_duration'] = reunit(rng, float(np.round(rng.uniform(20, 50), 2)), 'min')
            ph = {'subsystem_options': {'aerodynamics': {'method': 'computed'}}, 'user_options': uo}
            if rng.random() < 0.6:
                ph['initial_guesses'] = energy_guesses(rng, 'cruise', t0, 30.0, (ra, ra), (rm, rm))
            pi[name] = ph
            t0 += 30
        labels.append(f'{nres}res')
    r = rng.random()
    post = {'include_landing': False, 'constrain_range': bool(rng.random() < 0.8)}
    if r < 0.8:
        post['target_range'] = reunit(rng, float(np.round(rng.uniform(800, 2500), 1)), 'nmi')
    pi['post_mission'] = post
    return pi, labels


def energy_guesses(rng, kind, t0, dur, alt, mach):
    g = {}
    if rng.random() < 0.9:
        f = float(rng.uniform(0.8, 1.2))
        g['time'] = reunit(rng, (t0, dur * f), 'min')
    if rng.random() < 0.5:
        n = int(rng.choice([1, 2, 2]))
        m = np.sort(rng.uniform(110e3, 160e3, n))[::-1]
        g['mass'] = reunit(rng, float(m[0]) if n == 1 else m.tolist(), 'lbm')
    if rng.random() < 0.5:
        d = np.sort(rng.uniform(0, 1900, 2))
        g['distance'] = reunit(rng, d.tolist(), 'nmi')
    if rng.random() < 0.4:
        g['altitude'] = reunit(rng, [alt[0], alt[1]] if rng.random() < 0.7 else [alt[0], (alt[0] + alt[1]) / 2 + 100, alt[1]], 'ft') if False else reunit(rng, [alt[0], alt[1]], 'ft')
    if rng.random() < 0.4:
        g['mach'] = ([mach[0], mach[1]], 'unitless')
    return g


def structural_takeoff_landing(rng, pi):
    labels = []
    if rng.random() < 0.3:
        pi['pre_mission']['include_takeoff'] = True
        labels.append('takeoff')
        first = next(p for p in pi if p not in ('pre_mission', 'post_mission'))
        for name in ('altitude', 'mach'):
            # an optimized start of the climb is tied to the end of the takeoff by a residual
            if rng.random() < 0.4:
                pi[first]['user_options'][name + '_optimize'] = True
                pi[first]['user_options'][name + '_initial'] = (None, 'ft' if name == 'altitude' else 'unitless')
                labels.append('free ' + name)
    if rng.random() < 0.3:
        pi['post_mission']['include_landing'] = True
        labels.append('landing')
    return labels


def mutate_mission(rng, pi, eom, n, names=None):
    """Give n random options of random phases random values."""
    labels = []
    phases = [p for p in pi if p not in ('pre_mission', 'post_mission')]
    for _ in range(n):
        p = phases[int(rng.integers(len(phases)))]
        uo = pi[p]['user_options']
        opts = declared_options(eom, uo)
        cand = [o for o in opts if names is None or names(o)]
        if not cand:
            continue
        o = cand[int(rng.integers(len(cand)))]
        if o in ('phase_type', 'reserve', 'ground_roll', 'rotation', 'clean', 'analytic'):
            continue
        lab = mutate_option(rng, uo, o, opts[o], eom)
        if lab:
            labels.append(lab)
    return labels


def default_mission(eom):
    mod = {'ES': 'models.missions.energy_state_default', '2DOF': 'models.missions.two_dof_default',
           'S2DOF': 'models.missions.solved2dof_default'}[eom]
    return copy.deepcopy(ref(mod, 'phase_info'))


# ----------------------------------------------------------------------------- aircraft
_DECKVALS = {}


def deck_values(deck):
    if deck not in _DECKVALS:
        with vp.quiet():
            av, _ = vp.vehicle(R, deck)
        _DECKVALS[deck] = {k: v for k, v in av}
    return _DECKVALS[deck]


# what must not be perturbed at random: a model would be asked for something meaningless
FROZEN = ('aircraft:crew_and_payload', 'settings:', 'aircraft:engine:num', 'aircraft:engine:data', 'num_', ':type',
          'aircraft:engine:subsonic_fuel_flow', 'reference', 'interpolat', 'ignore', 'aircraft:engine:generate',
          'aircraft:engine:flight_idle', 'aircraft:engine:geopotential', 'aircraft:engine:scale_mass', 'distribution',
          'detailed', 'stations', 'location', 'max_tip', 'blade')


def perturb_deck(rng, deck, n, amount=0.06):
    """{name: (value, units)}: n continuous variables of the deck moved a little, some in other units."""
    vals = deck_values(deck)
    names = [
        k for k, (v, u) in vals.items()
        if not any(f in k for f in FROZEN) and isinstance(v, (float, np.floating)) and v != 0 and np.isfinite(v)
    ]
    out = {}
    if not names:
        return out
    for k in rng.choice(names, size=min(n, len(names)), replace=False):
        v, u = vals[k]
        nv = float(v) * float(np.round(rng.uniform(1 - amount, 1 + amount), 5))
        if rng.random() < 0.4:
            nv, u = reunit(rng, nv, u)
        out[str(k)] = (nv, u)
    return out


OVERRIDABLE = None


def case_key(spec, labels):
    return '|'.join([spec['deck'], str(spec.get('problem_type')), *labels])


# ----------------------------------------------------------------------------- specs per mission method
ES_DECKS = ['asa', 'lsa1', 'lsa2', 'lsa2alt', 'min', 'asa', 'min', 'bwbs', 'bwb300', 'lsa2det', 'bwbd']


def es_spec(rng, nmut=3, names=None, deck=None, perturb=2, structural=True, guesses=True):
    pi, labels = energy_mission(rng)
    if structural:
        labels += structural_takeoff_landing(rng, pi)
    labels += mutate_mission(rng, pi, 'ES', nmut, names)
    deck = deck or str(rng.choice(ES_DECKS[:6] if rng.random() < 0.75 else ES_DECKS))
    spec = {'deck': deck, 'phase_info': pi, 'values': perturb_deck(rng, deck, perturb)}
    A = ref('variable_info.variables', 'Aircraft')
    M = ref('variable_info.variables', 'Mission')
    r = rng.random()
    if r < 0.15:
        spec['values'][M.RESERVE_FUEL_MARGIN] = (float(np.round(rng.uniform(1, 8), 2)), 'unitless')
        labels.append('margin')
    elif r < 0.3:
        spec['values'][M.RESERVE_FUEL_MASS_ADDITIONAL] = reunit(rng, float(np.round(rng.uniform(500, 5000), 1)), 'lbm')
        labels.append('additional')
    elif r < 0.4:
        spec['values'][A.Fuel.IGNORE_FUEL_CAPACITY_CONSTRAINT] = (True, 'unitless')
        labels.append('nocap')
    return spec, labels


def td_spec(rng, nmut=3, names=None, deck=None, perturb=1):
    pi = default_mission('2DOF')
    E = ref('variable_info.enums', 'PhaseType')
    labels = ['2dof']
    if rng.random() < 0.25:
        uo = pi['cruise']['user_options']
        for k in list(uo):
            if k.startswith('time_duration'):
                uo.pop(k)
        pi['cruise'] = {
            'subsystem_options': {'aerodynamics': {'method': 'cruise'}},
            'user_options': {'phase_type': E.BREGUET_RANGE, 'alt_cruise': (37.5e3, 'ft'), 'mach_cruise': 0.8},
            'initial_guesses': {'mass': ([168500.0, -35000.0], 'lbm'), 'initial_distance': (200.0e3, 'ft'),
                                'initial_time': (1516.0, 's'), 'altitude': (37.5e3, 'ft'), 'mach': (0.8, 'unitless')},
        }
        labels.append('breguet')
    if rng.random() < 0.3:
        res = copy.deepcopy(pi['cruise' if rng.random() < 0.5 else 'desc1'])
        res['user_options']['reserve'] = True
        if rng.random() < 0.5 and 'num_segments' in res['user_options']:
            res['user_options']['target_distance'] = reunit(rng, float(rng.uniform(50, 200)), 'nmi')
        elif res['user_options'].get('phase_type') is E.BREGUET_RANGE or res['user_options'].get('phase_type') is E.SIMPLE_CRUISE:
            k = 'time_duration' if rng.random() < 0.5 else 'target_distance'
            res['user_options'][k] = reunit(rng, float(rng.uniform(20, 40)), 'min') if k == 'time_duration' else reunit(rng, float(rng.uniform(50, 200)), 'nmi')
            if k == 'target_distance' and int(res['user_options'][k][0] * 1000) % 3 == 0:
                res['user_options']['time_duration'] = (25.5, 'min')  # both targets (no draw: later ones stay the same)
        pi['reserve_' + str(rng.choice(['a', 'cruise', 'x']))] = res
        labels.append('res')
    if rng.random() < 0.3:
        pi['post_mission'] = {'include_landing': bool(rng.random() < 0.7)}
        if rng.random() < 0.6:
            pi['post_mission']['target_range'] = reunit(rng, float(np.round(rng.uniform(2000, 3675), 1)), 'nmi')
        labels.append('post')
    if rng.random() < 0.3:
        pi['pre_mission'] = {'include_takeoff': bool(rng.random() < 0.9), 'optimize_mass': True}
        labels.append('pre')
    labels += mutate_mission(rng, pi, '2DOF', nmut, names)
    for p in pi:
        if p in ('pre_mission', 'post_mission'):
            continue
        g = pi[p].get('initial_guesses', {})
        for k in list(g):
            if rng.random() < 0.15 and isinstance(g[k], tuple):
                g[k] = reunit(rng, *g[k])
    deck = deck or str(rng.choice(['lsag', 'ssag', 'bwbg'], p=[0.45, 0.35, 0.2]))
    return {'deck': deck, 'phase_info': pi, 'values': perturb_deck(rng, deck, perturb)}, labels


LOW_SPEED = {
    'aerodynamics': {
        'method': 'low_speed', 'ground_altitude': 0.0,
        'angles_of_attack': [float(x) for x in range(-5, 16)],
        'lift_coefficients': [0.01, 0.1, 0.2, 0.3, 0.4, 0.5178, 0.6, 0.75, 0.85, 0.95, 1.05, 1.15, 1.25, 1.35, 1.5, 1.6,
                              1.7, 1.8, 1.85, 1.9, 1.95],
        'drag_coefficients': [0.04, 0.02, 0.01, 0.02, 0.04, 0.0674, 0.065, 0.065, 0.07, 0.072, 0.076, 0.084, 0.09, 0.10,
                              0.11, 0.12, 0.13, 0.15, 0.16, 0.18, 0.20],
        'lift_coefficient_factor': 1.0, 'drag_coefficient_factor': 1.0,
    }
}


def s2_spec(rng, nmut=3, names=None):
    labels = ['solved2dof']
    if rng.random() < 0.6:
        pi = default_mission('S2DOF')
    else:
        pi = copy.deepcopy(ref('models.missions.solved2dof_landing_default', 'phase_info'))
        labels = ['solved2dof_landing']
    phases = [p for p in pi if p not in ('pre_mission', 'post_mission')]
    keep = int(rng.integers(2, len(phases) + 1))
    for p in phases[keep:]:
        pi.pop(p)
    labels.append(f'{keep}ph')
    for p in phases[:keep]:
        so = copy.deepcopy(LOW_SPEED)
        so['aerodynamics']['lift_coefficient_factor'] = float(np.round(rng.uniform(0.9, 2.0), 3))
        so['aerodynamics']['drag_coefficient_factor'] = float(np.round(rng.uniform(0.9, 2.0), 3))
        pi[p]['subsystem_options'] = so
    labels += mutate_mission(rng, pi, 'S2DOF', nmut, names)
    return {'deck': 'solved2dof', 'phase_info': pi, 'values': {}, 'objective': 'time'}, labels
