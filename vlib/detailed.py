"""Detailed takeoffs and landings (the Level 3 trajectory builders): definitions, construction and monitors."""

import importlib

import numpy as np
from openmdao.utils.units import convert_units

from vlib import diff
from vlib import prob as vp
from vlib.core import eval_limit
from vlib.missions import bound_ok, conv, diff_key, near, units_of

TK = 'DetailedTakeoff'
LD = 'DetailedLanding'
GM = (129734.0, 'lbm')
LM = (106292.0, 'lbm')
AL = np.arange(16.0).tolist()
TAKEOFF_AERO = dict(
    angles_of_attack=AL,
    lift_coefficients=[0.5178, 0.6, 0.75, 0.85, 0.95, 1.05, 1.15, 1.25, 1.35, 1.5, 1.6, 1.7, 1.8, 1.85, 1.9, 1.95],
    drag_coefficients=[0.0674, 0.065, 0.065, 0.07, 0.072, 0.076, 0.084, 0.09, 0.10, 0.11, 0.12, 0.13, 0.15, 0.16, 0.18, 0.20],
)
LANDING_AERO = dict(
    angles_of_attack=AL,
    lift_coefficients=[0.7, 0.9, 1.05, 1.15, 1.25, 1.4, 1.5, 1.60, 1.7, 1.8, 1.9, 2.0, 2.1, 2.2, 2.3, 2.40],
    drag_coefficients=[0.1, 0.1, 0.12, 0.13, 0.14, 0.15, 0.16, 0.17, 0.18, 0.20, 0.22, 0.24, 0.26, 0.3, 0.32, 0.34],
)
VALUES = {
    'mission:takeoff:airport_altitude': (0.0, 'ft'), 'mission:takeoff:obstacle_height': (35.0, 'ft'),
    'mission:takeoff:lift_coefficient_max': (2.0, 'unitless'), 'mission:takeoff:angle_of_attack_runway': (0.0, 'deg'),
    'mission:takeoff:rolling_friction_coefficient': (0.0175, 'unitless'),
    'mission:takeoff:braking_friction_coefficient': (0.35, 'unitless'), 'mission:takeoff:thrust_incidence': (0.0, 'deg'),
    'mission:takeoff:drag_coefficient_min': (0.05, 'unitless'), 'mission:landing:drag_coefficient_min': (0.045, 'unitless'),
    'mission:landing:lift_coefficient_max': (2.0, 'unitless'), 'mission:landing:airport_altitude': (0.0, 'ft'),
    'mission:landing:rolling_friction_coefficient': (0.0175, 'unitless'),
    'mission:landing:braking_friction_coefficient': (0.35, 'unitless'), 'mission:landing:flare_rate': (2.2, 'deg/s'),
    'mission:landing:obstacle_height': (50.0, 'ft'), 'mission:takeoff:fuel_mass': (577.0, 'lbm'),
}
FT, KN, S, DEG = 'ft', 'kn', 's', 'deg'


def o_ground(dur, dref, iref, dist, vel=167.85):
    d = {'max_duration': (dur, S), 'time_duration_ref': (dref, S), 'distance_max': (dist, FT), 'max_velocity': (vel, KN)}
    if iref:
        d['time_initial_ref'] = (iref, S)
    return d


def o_air(dur, dref, iref, dist, alt, fpa, lo, hi, aref=10.0, vel=167.85):
    d = o_ground(dur, dref, iref, dist, vel)
    d.update({'altitude_ref': (alt, FT), 'flight_path_angle_ref': (fpa, DEG), 'lower_angle_of_attack': (lo, DEG),
              'upper_angle_of_attack': (hi, DEG), 'angle_of_attack_ref': (aref, DEG)})
    return d


def g(time, dist, vel, thr, alpha, mass=GM, alt=None, fpa=None):
    d = {'time': (time, S), 'distance': (dist, FT), 'velocity': (vel, KN), 'throttle': (thr, 'unitless'), 'angle_of_attack': (alpha, DEG), 'mass': mass}
    if alt is not None:
        d['altitude'] = (alt, FT)
    if fpa is not None:
        d['flight_path_angle'] = (fpa, DEG)
    return d


TAKEOFF = {
    # key: (setter, api class, options, guesses)
    'release': ('set_brake_release_to_decision_speed', TK + 'BrakeReleaseToDecisionSpeedPhaseBuilder', o_ground(60, 60, None, 7500), g([0.0, 30.0], [0.0, 4100.0], [0.01, 150.0], 1.0, 0.0)),
    'decision': ('set_decision_speed_to_rotate', TK + 'DecisionSpeedToRotatePhaseBuilder', o_ground(60, 60, 35, 7500), g([30.0, 2.0], [4100.0, 4500.0], [150.0, 160.0], 1.0, 0.0)),
    'rotate': ('set_rotate_to_liftoff', TK + 'RotateToLiftoffPhaseBuilder', {**o_ground(60, 60, 38, 7500), 'max_angle_of_attack': (10.0, DEG)}, g([32.0, 1.0], [4500.0, 4800.0], [160.0, 160.0], 1.0, [0.0, 8.0])),
    'liftoff': ('set_liftoff_to_obstacle', TK + 'LiftoffToObstaclePhaseBuilder', o_air(12, 12, 39, 7500, 35.0, 10.0, 0.0, 8.117), g([33.0, 4.0], [4800.0, 5700.0], [160.0, 167.0], 1.0, 8.117, GM, [0.0, 35.0], [0.0, 6.0])),
    'mic_p2': ('set_obstacle_to_mic_p2', TK + 'ObstacleToMicP2PhaseBuilder', {**o_air(25, 25, 50, 12000, 1500.0, 12.0, 0.0, 12.0), 'mic_altitude': (985.0, FT)}, g([36.0, 18.0], [5700.0, 10000.0], [167.0, 167.0], 1.0, 8.117, GM, [35.0, 985.0], [7.0, 10.0])),
    'to_cutback': ('set_mic_p2_to_engine_cutback', TK + 'MicP2ToEngineCutbackPhaseBuilder', {**o_air(30, 40, 65, 20000, 3000.0, 12.0, 0.0, 12.0), 'final_range': (19000.0, FT)}, g([53.0, 27.0], [10000.0, 19000.0], [167.0, 167.0], 1.0, 5.0, GM, [985.0, 2500.0], [11.0, 10.0])),
    'cutback': ('set_engine_cutback', TK + 'EngineCutbackPhaseBuilder', {k: v for k, v in o_air(1, 1, 95, 21000, 4000.0, 12.0, 0.0, 12.0).items() if k not in ('max_duration', 'time_duration_ref')}, g([84.0, 3.5], [19000.0, 20000.0], [167.0, 167.0], [1.0, 0.65], 5.0, GM, [2500.0, 2600.0], [10.0, 10.0])),
    'to_p1': ('set_engine_cutback_to_mic_p1', TK + 'EngineCutbackToMicP1PhaseBuilder', {**o_air(11, 11, 97, 22000, 3500.0, 12.0, 0.0, 15.0), 'mic_range': (21325.0, FT)}, g([87.0, 10.0], [20000.0, 21325.0], [167.0, 167.0], 0.65, 5.0, GM, [2600.0, 2700.0], 2.29)),
    'climb': ('set_mic_p1_to_climb', TK + 'MicP1ToClimbPhaseBuilder', {**o_air(40, 40, 100, 30000, 4000.0, 12.0, 0.0, 15.0), 'mic_range': (30000.0, FT)}, g([95.0, 32.0], [21325.0, 30000.0], [167.0, 167.0], 0.65, 5.0, GM, [2700.0, 3200.0], 2.29)),
    'delay': ('set_decision_speed_to_brake', TK + 'DecisionSpeedBrakeDelayPhaseBuilder', {'time_duration_ref': (4.0, S), 'time_initial_ref': (35.0, S), 'distance_max': (7500.0, FT), 'max_velocity': (167.85, KN)}, g([30.0, 3.0], [4100.0, 4600.0], [150.0, 150.0], 0.5, 0.0)),
    'abort': ('set_brake_to_abort', TK + 'BrakeToAbortPhaseBuilder', o_ground(60, 60, 35, 7500), g([32.0, 22.0], [4600.0, 7000.0], [150.0, 0.01], 0.0, 0.0)),
}
LANDING = {
    'approach': ('set_approach_to_mic_p3', LD + 'ApproachToMicP3PhaseBuilder', {**{k: v for k, v in o_air(50, 50, 50, 10000, 800.0, 1.0, 0.0, 12.0, 12.0, 140.0).items() if k != 'flight_path_angle_ref'}, 'initial_height': (600.0, FT)}, g([-42.0, 15.0], [-4000.0, -2000.0], 140.0, 0.164, 5.25, LM, [600.0, 394.0], [-3.0, -3.0])),
    'p3': ('set_mic_p3_to_obstacle', LD + 'MicP3ToObstaclePhaseBuilder', {**{k: v for k, v in o_air(50, 50, 50, 6000, 400.0, 1.0, 0.0, 12.0, 12.0, 140.0).items() if k != 'flight_path_angle_ref'}, 'initial_height': (394.0, FT)}, g([-27.0, 27.0], [-2000.0, 0.0], 140.0, 0.164, 5.25, LM, [394.0, 50.0], [-3.0, -3.0])),
    'obstacle': ('set_obstacle_to_flare', LD + 'ObstacleToFlarePhaseBuilder', {'max_duration': (5.0, S), 'distance_max': (800.0, FT), 'max_velocity': (140.0, KN), 'altitude_ref': (50.0, FT)}, g([0.0, 4.0], [0.0, 800.0], 140.0, 0.164, 5.2, LM, [50.0, 15.0], [-3.0, -3.0])),
    'flare': ('set_flare_to_touchdown', LD + 'FlareToTouchdownPhaseBuilder', {k: v for k, v in o_air(7, 7, 4, 1000, 15.0, 1.0, 5.2, 12.0, 12.0, 140.0).items() if k != 'flight_path_angle_ref'}, g([4.0, 6.0], [800.0, 1000.0], 140.0, [0.164, 0.094], [5.2, 7.5], LM, [15.0, 0.0], [-3.0, 0.0])),
    'touchdown': ('set_touchdown_to_nose_down', LD + 'TouchdownToNoseDownPhaseBuilder', {**o_ground(10, 10, 6, 3000, 140.0), 'max_angle_of_attack': (8.0, DEG)}, g([6.0, 9.0], [1000.0, 1400.0], [140.0, 135.0], 0.0, [7.5, 0.0], LM)),
    'stop': ('set_nose_down_to_stop', LD + 'NoseDownToStopPhaseBuilder', o_ground(30, 30, 14, 4400, 140.0), g([9.0, 29.0], [1400.0, 3500.0], [135.0, 0.01], 0.0, 0.0, LM)),
}
TABLES = {'takeoff': TAKEOFF, 'landing': LANDING}
CHAINS = {
    'takeoff': [['release', 'decision', 'rotate', 'liftoff', 'mic_p2', 'to_cutback', 'cutback', 'to_p1', 'climb'], ['release', 'delay', 'abort']],
    'landing': [['approach', 'p3', 'obstacle', 'flare', 'touchdown', 'stop']],
}
ON_GROUND = {'release', 'decision', 'rotate', 'delay', 'abort', 'touchdown', 'stop'}
BRAKING = {'abort', 'stop'}

ALT_UNITS = {'ft': ['ft', 'm', 'km'], 'kn': ['kn', 'm/s', 'ft/s', 'km/h'], 's': ['s', 'min'], 'deg': ['deg', 'rad'], 'lbm': ['lbm', 'kg'], 'unitless': ['unitless'], 'deg/s': ['deg/s', 'rad/s']}


def restate(rng, v, u):
    w = str(rng.choice(ALT_UNITS[u]))
    if w == u or u == 'unitless':
        return (v, u)
    x = convert_units(np.asarray(v, float), u, w)
    return (x.tolist() if np.ndim(x) else float(x), w)


def make_spec(rng):
    kind = str(rng.choice(['takeoff', 'landing'], p=[0.6, 0.4]))
    T = TABLES[kind]
    if kind == 'takeoff':
        keys = ['release', 'decision', 'rotate', 'liftoff']
        shape = str(rng.choice(['plain', 'acoustic', 'abort', 'both'], p=[0.25, 0.3, 0.3, 0.15]))
        if shape in ('acoustic', 'both'):
            keys += ['mic_p2', 'to_cutback', 'cutback', 'to_p1', 'climb']
        if shape in ('abort', 'both'):
            keys += ['delay', 'abort']
    else:
        shape = str(rng.choice(['plain', 'acoustic']))
        keys = (['approach', 'p3'] if shape == 'acoustic' else []) + ['obstacle', 'flare', 'touchdown', 'stop']
    phases = {}
    for k in keys:
        opts, guess = {}, {}
        for n, (v, u) in T[k][2].items():
            if rng.random() < 0.12:
                continue
            if rng.random() < 0.6:
                v = float(np.round(v * rng.uniform(0.7, 1.5) + (0.5 if v == 0 else 0), 3))
            opts[n] = restate(rng, v, u)
        for n, (v, u) in T[k][3].items():
            if n != 'time' and rng.random() < 0.08:
                continue
            v = np.asarray(v, float) * (rng.uniform(0.9, 1.1) if n != 'throttle' else rng.uniform(0.8, 1.0))
            guess[n] = restate(rng, v.tolist() if v.ndim else float(v), u)
        aero = dict(TAKEOFF_AERO if kind == 'takeoff' else LANDING_AERO)
        aero = {n: list(v) for n, v in aero.items()}
        if rng.random() < 0.4:
            f = float(rng.uniform(0.8, 1.2))
            aero['lift_coefficients'] = [f * x for x in aero['lift_coefficients']]
        sub = {'method': 'low_speed', 'ground_altitude': float(rng.choice([0.0, 0.0, 300.0])),
               'lift_coefficient_factor': float(rng.choice([1.0, 0.95])), 'drag_coefficient_factor': float(rng.choice([1.0, 1.07])), **aero}
        if k in BRAKING and rng.random() < 0.7:
            sub.update(use_spoilers=True, spoiler_lift_coefficient=-0.81, spoiler_drag_coefficient=0.085)
        phases[k] = dict(name=f'{kind[:2]}_{k}' if rng.random() < 0.7 else f'ph{len(phases)}_{k[::-1]}', options=opts, guesses=guess, aero=sub,
                         via_info=bool(rng.random() < 0.25))
    values = {}
    for n, (v, u) in VALUES.items():
        if rng.random() < 0.5 and v:
            v = float(np.round(v * rng.uniform(0.7, 1.4), 4))
        if n.endswith('airport_altitude') and rng.random() < 0.6:
            v = float(rng.choice([500.0, 1200.0, 2500.0]))
        values[n] = restate(rng, v, u)
    if rng.random() < 0.3:
        m = str(rng.choice(['TROPICAL', 'POLAR', 'HOT', 'COLD']))
        values['settings:atmosphere_model'] = (importlib.import_module('aviary_ref.variable_info.enums').AtmosphereModel[m], 'unitless')
    spec = dict(detailed=kind, deck='asa', shape=shape, phases=phases, values=values, bfl_ref=float(np.round(rng.uniform(6000, 9000), 1)),
                params=bool(rng.random() < 0.85))
    return spec, [kind, shape]


def build(pkg, spec, upto):
    import dymos as dm
    import openmdao.api as om

    av = importlib.import_module(pkg + '.api')
    im = lambda m: importlib.import_module(f'{pkg}.{m}')
    kind = spec['detailed']
    data, _ = vp.vehicle(pkg, spec['deck'])
    for n, (v, u) in spec['values'].items():
        data.set_val(n, vp.conv(v, pkg), u)
    data.set_val('settings:verbosity', 0)
    engines = [im('subsystems.propulsion.utils').build_engine_deck(data)]
    im('utils.preprocessors').preprocess_options(data, engine_models=engines)
    meta = im('variable_info.variable_meta_data').CoreMetaData
    code = im('variable_info.enums').LegacyCode('FLOPS')
    prop = lambda: im('subsystems.propulsion.propulsion_builder').CorePropulsionBuilder('propulsion', meta, engine_models=engines)
    aero = lambda: im('subsystems.aerodynamics.aerodynamics_builder').CoreAerodynamicsBuilder('aerodynamics', meta, code)
    pre = [prop(), im('subsystems.geometry.geometry_builder').CoreGeometryBuilder('geometry', meta, code), aero(),
           im('subsystems.mass.mass_builder').CoreMassBuilder('mass', meta, code)]
    p = om.Problem()
    p.model.add_subsystem('pre_mission', im('subsystems.premission').CorePreMission(aviary_options=data, subsystems=pre, subsystem_options={}),
                          promotes_inputs=['aircraft:*'], promotes_outputs=['aircraft:*'])
    traj = dm.Trajectory()
    p.model.add_subsystem('traj', traj)
    tb = getattr(av, TK + 'TrajectoryBuilder' if kind == 'takeoff' else LD + 'TrajectoryBuilder')(f'detailed_{kind}')
    builders = {}
    for k, ph in spec['phases'].items():
        setter, cls = TABLES[kind][k][:2]
        cls = getattr(av, cls)
        uo, ig = av.AviaryValues(), av.AviaryValues()
        for n, (v, u) in ph['options'].items():
            uo.set_val(n, v, u)
        for n, (v, u) in ph['guesses'].items():
            ig.set_val(n, v, u)
        kw = dict(subsystems=[aero(), prop()], subsystem_options={'aerodynamics': dict(ph['aero'])})
        if ph.get('via_info'):
            info = dict(user_options={n: v for n, v in ph['options'].items()}, initial_guesses={n: v for n, v in ph['guesses'].items()}, subsystem_options=kw['subsystem_options'])
            b = cls.from_phase_info(ph['name'], info, subsystems=kw['subsystems'])
        else:
            b = cls(ph['name'], user_options=uo, initial_guesses=ig, **kw)
        builders[k] = b
        if setter == 'set_brake_to_abort':
            tb.set_brake_to_abort(b, balanced_field_ref=spec['bfl_ref'])
        else:
            getattr(tb, setter)(b)
    tb.build_trajectory(aviary_options=data, model=p.model if spec['params'] else None, traj=traj)
    last = spec['phases']['liftoff' if kind == 'takeoff' else 'stop']['name']
    tb.get_phase(last).add_objective('distance', loc='final', ref=7500.0, units='ft')
    im('utils.functions').set_aviary_input_defaults(p.model, ['aircraft:wing:aspect_ratio', 'aircraft:engine:scale_factor', 'aircraft:wing:area', 'aircraft:wing:span'][:4 if spec['params'] else 0], data)
    im('variable_info.functions').setup_model_options(p, data)
    p.setup()
    im('utils.functions').set_aviary_initial_values(p, data)
    p.set_solver_print(-1)
    b = vp.Built()
    b.prob, b.pkg, b.data, b.tb, b.builders = p, pkg, data, tb, builders
    b.not_applied = tb.apply_initial_guesses(p, 'traj')
    b.names = tb.get_phase_names()
    if upto == 'guess':
        p.final_setup()
    else:
        p.run_model()
    return b


# ----------------------------------------------------------------------------- monitors
def opt_units(kind, k, n):
    return TABLES[kind][k][2][n][1]


def monitor(rec, spec, b):
    p = b.prob
    kind = spec['detailed']
    opt = vp.observe_opt(p)
    name = {k: ph['name'] for k, ph in spec['phases'].items()}
    cons = {n: m for (q, n), m in opt.items() if q == 'con'}

    def bad(what, msg):
        rec.violation(f'{kind}: {what}', msg, spec=spec)

    order = [n for c in CHAINS[kind] for n in c if n in name]
    if sorted(b.names) != sorted(name.values()):
        bad('phases of the trajectory', f'get_phase_names gives {b.names}, defined were {list(name.values())}')
    # limits
    for k, ph in spec['phases'].items():
        o = ph['options']
        n = name[k]
        for oname, var in (('distance_max', 'distance'), ('max_velocity', 'velocity')):
            dv = opt.get(('dv', f'traj.{n}.states:{var}'))
            if oname not in o or dv is None:
                continue
            u = units_of(p, f'traj.{n}.states:{var}')
            w = conv(*o[oname], u)
            rec.event('phase limit')
            if kind == 'takeoff' and not bound_ok(dv['upper'], w):
                bad(f'{oname} is not the limit', f'{k}: {oname} {o[oname]} is {w} {u}, upper is {np.max(dv["upper"])}')
            if not near(dv['ref'], w, 1e-9):
                bad(f'{oname} does not scale', f'{k}: {oname} {o[oname]} is {w} {u}, ref is {np.max(dv["ref"])}')
        if 'max_duration' in o:
            dv = opt.get(('dv', f'traj.{n}.t_duration'))
            rec.event('phase limit')
            if k == 'delay':
                if dv is not None:
                    bad('the reaction time is varied', f'{k}: the duration is a design variable')
            elif dv is None:
                bad('duration is not free', f'{k}: no design variable for the duration')
            else:
                u = units_of(p, f'traj.{n}.t_duration') or 's'
                if not near(dv['upper'], conv(*o['max_duration'], 's' if u is None else u), 1e-9):
                    bad('max_duration is not the limit', f'{k}: max_duration {o["max_duration"]}, upper is {dv["upper"]} {u}')
        for on, end in (('lower_angle_of_attack', 'lower'), ('upper_angle_of_attack', 'upper'), ('max_angle_of_attack', 'upper')):
            if on not in o:
                continue
            dv = next((m for (q, x), m in opt.items() if q == 'dv' and str(x).startswith(f'traj.{n}.') and str(x).endswith(':angle_of_attack')), None)
            rec.event('phase limit')
            if dv is None:
                bad('angle of attack is not free', f'{k}: no design variable for the angle of attack')
                continue
            x = next(x for (q, x) in opt if q == 'dv' and str(x).startswith(f'traj.{n}.') and str(x).endswith(':angle_of_attack'))
            u = dv['units'] or units_of(p, x) or 'deg'
            if not near(dv[end], conv(*o[on], u), 1e-9):
                bad(f'{on} is not the limit', f'{k}: {on} {o[on]}, {end} is {dv[end]} {u}')
    # points of the procedure
    V = spec['values']

    def total(h, site):
        return conv(*h, 'ft') + conv(*V[f'mission:{site}:airport_altitude'], 'ft')

    points = []
    if kind == 'takeoff':
        points.append(('liftoff', 'altitude', 'final', total(V['mission:takeoff:obstacle_height'], 'takeoff')))
        if 'mic_p2' in name:
            for k, on in (('mic_p2', 'mic_altitude'), ('to_cutback', 'final_range'), ('to_p1', 'mic_range'), ('climb', 'mic_range')):
                o = spec['phases'][k]['options'].get(on)
                if o is not None:
                    points.append((k, 'altitude', 'final', total(o, 'takeoff')) if on == 'mic_altitude' else (k, 'distance', 'final', conv(*o, 'ft')))
    else:
        points.append(('obstacle', 'altitude', 'initial', total(V['mission:landing:obstacle_height'], 'landing')))
        for k in ('approach', 'p3'):
            if k in name and 'initial_height' in spec['phases'][k]['options']:
                points.append((k, 'altitude', 'initial', total(spec['phases'][k]['options']['initial_height'], 'landing')))
    for k, var, loc, want in points:
        rec.event('point of the procedure')
        c = [m for x, m in cons.items() if str(x).startswith(f'traj.{name[k]}.') and var in str(x) and loc in str(x) and m['equals'] is not None]
        if not any(near(m['equals'], conv(want, 'ft', m['units'] or 'm'), 1e-7) for m in c):
            bad(f'{k} does not {"end" if loc == "final" else "start"} where it has to',
                f'{k}: {loc} {var} should be required to be {want} ft; constraints: {[(float(np.ravel(m["equals"])[0]), m["units"]) for m in c]}')
    # the ends of one phase are the beginnings of the next
    for chain in CHAINS[kind]:
        ch = [k for k in chain if k in name]
        if len(ch) < 2 or (chain[1] not in name and kind == 'takeoff' and chain[1] == 'delay'):
            continue
        for a, c in zip(ch, ch[1:]):
            want = {'time', 'distance', 'velocity', 'mass'}
            if a not in ON_GROUND and c not in ON_GROUND:
                want |= {'altitude'}
                if kind == 'takeoff':
                    want |= {'flight_path_angle'}
            if c not in BRAKING and a != 'release':
                want |= {'angle_of_attack'}
            for var in sorted(want):
                try:
                    x = np.ravel(p.get_val(f'traj.{name[a]}.timeseries.{var}'))
                    y = np.ravel(p.get_val(f'traj.{name[c]}.timeseries.{var}'))
                except KeyError:
                    continue
                rec.event('phase link')
                hit = [q for q in cons if 'linkages' in str(q) and f'{name[a]}:' in str(q) and f'{name[c]}:' in str(q) and var in str(q)]
                fixed = kind == 'landing' and c == 'obstacle' and var in ('distance', 'velocity')
                if fixed:
                    continue  # both ends are fixed (end of the p3 phase, start of the obstacle phase)
                if not hit:
                    if not near(x[-1], y[0]):
                        bad(f'{var} is not continuous', f'{var} ends {a} at {x[-1]!r} and starts {c} at {y[0]!r}; nothing constrains it')
                    continue
                v = float(np.ravel(p.get_val(hit[0]))[0])
                if not near(abs(v), abs(x[-1] - y[0]), 1e-6, 1e-6):
                    bad(f'link of {var} constrains something else', f'{a}->{c} {var}: constraint {v!r}, the ends differ by {x[-1] - y[0]!r}')
    if kind == 'takeoff' and 'abort' in name:
        rec.event('balanced field')
        hit = [m for q, m in cons.items() if 'linkages' in str(q) and name['abort'] in str(q) and name['liftoff'] in str(q)]
        if not hit:
            bad('field is not balanced', 'no constraint ties the aborted and the continued takeoff distance')
        else:
            q = next(q for q in cons if 'linkages' in str(q) and name['abort'] in str(q) and name['liftoff'] in str(q))
            x = np.ravel(p.get_val(f'traj.{name["abort"]}.timeseries.distance'))[-1]
            y = np.ravel(p.get_val(f'traj.{name["liftoff"]}.timeseries.distance'))[-1]
            v = float(np.ravel(p.get_val(q))[0])
            if not near(abs(v), abs(x - y), 1e-6, 1e-6):
                bad('field is not balanced', f'constraint {v!r}, the distances differ by {x - y!r}')
            if not near(hit[0]['ref'], spec['bfl_ref'], 1e-9):
                bad('balanced field scaling', f'ref {hit[0]["ref"]}, given {spec["bfl_ref"]}')
    # guesses
    for k, ph in spec['phases'].items():
        n = name[k]
        for var, (v, u) in ph['guesses'].items():
            if var == 'time':
                for q, w in (('t_initial', v[0]), ('t_duration', v[1])):
                    rec.event('guess')
                    x = float(np.ravel(p.get_val(f'traj.{n}.{q}', units='s'))[0])
                    if not near(x, conv(w, u, 's'), 1e-9, 1e-9):
                        bad('time guess', f'{k}: {q} is {x} s, guess {w} {u}')
                continue
            for path in (f'states:{var}', f'controls:{var}', f'parameters:{var}'):
                try:
                    x = np.ravel(p.get_val(f'traj.{n}.{path}', units=u))
                except Exception:
                    continue
                rec.event('guess')
                w = np.atleast_1d(np.asarray(v, float))
                end = len(x) == 1 or near(x[-1], w[-1], 0, 1e-7 + (0.06 * abs(w[-1] - w[0]) if path.startswith('controls') else 0))
                if not (near(x[0], w[0], 1e-7, 1e-7) and end):
                    bad(f'guess of a {path.split(":")[0][:-1]}', f'{k}: {var} guess {v} {u}, set {x[0]}..{x[-1]}')
                break
    for n, left in b.not_applied.items():
        k = next((k for k in name if name[k] == n), None)
        for var in left:
            rec.event('guess')
            if k is None or var in spec['phases'][k]['guesses']:
                bad('a guess is not applied', f'{n}: {var} is given and reported as not applied')
    # the vehicle follows the forces on it
    look(rec, spec, b, name, bad)


def look(rec, spec, b, name, bad):
    """On the runway the vehicle accelerates as the forces on it and the friction say."""
    p = b.prob
    m = p.model
    kind = spec['detailed']
    V = spec['values']
    G = 9.80665
    for k, n in name.items():
        vals = {}
        for a in m._var_allprocs_abs2meta['output']:
            if f'.{n}.' not in a:
                continue
            parts = a.split('.')
            if 'rhs_all' not in parts and 'ode' not in parts:
                continue
            vals.setdefault(parts[-1], a)
        ins = {}
        for a in m._var_allprocs_abs2meta['input']:
            if f'.{n}.' in a and ('.rhs_all.' in a or '.ode.' in a) and '_eom.' in a:
                ins.setdefault(a.split('.')[-1], a)
        get = lambda key, u: np.ravel(p.get_val(vals[key], units=u)) if key in vals else (np.ravel(p.get_val(ins[key], units=u)) if key in ins else None)
        L, D, T, M = get('lift', 'N'), get('drag', 'N'), get('thrust_net_total', 'N'), get('mass', 'kg')
        acc = get('velocity_rate', 'm/s**2')
        if any(x is None for x in (L, D, T, M, acc)):
            rec.stat('phase without visible forces')
            continue
        if k in ON_GROUND:
            which = 'braking' if k in BRAKING else 'rolling'
            inc = conv(*V['mission:takeoff:thrust_incidence'], 'rad')
            W = M * G

            def law(site):
                mu = V[f'mission:{site}:{which}_friction_coefficient'][0]
                return (T * np.cos(inc) - D - mu * (W - L - T * np.sin(inc))) / M

            fits = lambda w: np.allclose(acc, w, rtol=1e-4, atol=1e-4)
            if not spec['params'] and not np.isfinite(acc).all():
                rec.stat('roll without a vehicle')
                continue
            rec.event('acceleration on the runway', len(acc))
            want = law(kind)
            if fits(want):
                continue
            if kind == 'landing' and fits(law('takeoff')):
                bad('the roll-out uses the friction of the takeoff', f'{k}: {which} friction {V["mission:landing:" + which + "_friction_coefficient"]} is given for the landing, {V["mission:takeoff:" + which + "_friction_coefficient"]} is used')
                continue
            i = int(np.argmax(np.abs(acc - want)))
            bad('acceleration on the runway', f'{k}: {acc[i]} m/s**2, the forces and the {which} friction give {want[i]} (L {L[i]:.0f} D {D[i]:.0f} T {T[i]:.0f} m {M[i]:.0f})')


def worker(rec, item):
    seed = item
    rng = np.random.default_rng(seed)
    spec, labels = make_spec(rng)
    rec.case(diff_key('DT', spec, labels), {'labels': labels})
    rec.stat('definitions ' + labels[0])
    r = diff.run_pair(rec, spec, 'run', rng, what=f'detailed {spec["detailed"]}', limit=90)
    if r is None:
        return
    rec.stat('built ' + labels[0])
    rec.seen('shapes', '+'.join(labels))
    with vp.quiet(), eval_limit(60):
        monitor(rec, spec, r[1].b)
