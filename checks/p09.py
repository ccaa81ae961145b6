"""Atmosphere: the reference monitor, and the laws it has to obey on its own.

Independent oracles: the layer formulas of the U.S. Standard Atmosphere 1976 (geopotential altitude), the gas law, speed of sound and
viscosity as functions of temperature, the geometric altitude transformation, the tabulated points of every other model (read from the
committed release), and the closed relations between true and equivalent airspeed, Mach number and dynamic pressure.
"""
import importlib

import numpy as np
import openmdao.api as om

from vlib import fidelity, groupmon
from vlib import missions as ms

GAS = {'Earth': (28.97, 1.4, 110.4, 1.458e-6), 'Mars': (43.34, 1.36, 222.0, 1.503e-6), 'Venus': (43.45, 1.29, 222.0, 1.503e-6)}
RS = 8314.32
LAYERS = [(0.0, -0.0065), (11000.0, 0.0), (20000.0, 0.001), (32000.0, 0.0028), (47000.0, 0.0), (51000.0, -0.0028), (71000.0, -0.002)]


def us1976(h):
    """Temperature (K), pressure (Pa), density (kg/m**3) at geopotential altitude h (m)."""
    g, R = 9.80665, 8314.32 / 28.9644
    T, P = 288.15, 101325.0
    for i, (h0, a) in enumerate(LAYERS):
        top = LAYERS[i + 1][0] if i + 1 < len(LAYERS) else 1e9
        x = min(h, top) - h0
        T1 = T + a * x
        P1 = P * (T1 / T) ** (-g / (R * a)) if a else P * np.exp(-g * x / (R * T))
        if h <= top:
            return T1, P1, P1 / (R * T1)
        T, P = T1, P1


def table(pkg, model):
    """The tabulated points and planet of a model, and its radius and sea level density."""
    f = importlib.import_module(pkg + '.subsystems.atmosphere.utils.get_atmosphere_data').get_atmosphere_data
    E = importlib.import_module(pkg + '.variable_info.enums').AtmosphereModel
    return f(E[model])


def evaluate(pkg, model, dT, h_def, alt, speed, value, units, group, static=True):
    A = importlib.import_module(pkg + '.subsystems.atmosphere.atmosphere')
    E = importlib.import_module(pkg + '.variable_info.enums')
    V = importlib.import_module(pkg + '.variable_info.variables')
    p = om.Problem()
    kw = {'num_nodes': len(alt), 'h_def': h_def, 'delta_T_Celcius': dT}
    if group:
        p.model.add_subsystem('atm', A.Atmosphere(input_speed_type=E.SpeedType[speed], **kw), promotes=['*'])
        rho0 = table('aviary_ref', model)[4]
    else:
        p.model.add_subsystem('atm', A.AtmosphereComp(**kw), promotes=['*'])
    p.model_options['*'] = {V.Settings.ATMOSPHERE_MODEL: E.AtmosphereModel[model]}
    if group:
        p.model_options['*'][V.Mission.SEA_LEVEL_DENSITY] = rho0
    p.setup(check=False)
    D = V.Dynamic
    p.set_val(D.Mission.ALTITUDE, alt, units=units)
    n = {'TAS': D.Mission.VELOCITY, 'EAS': 'EAS', 'MACH': D.Atmosphere.MACH}
    if group:
        p.set_val(n[speed], value, units='unitless' if speed == 'MACH' else 'm/s')
    p.run_model()
    a = D.Atmosphere
    out = {'T': p.get_val(a.TEMPERATURE, 'degK'), 'P': p.get_val(a.STATIC_PRESSURE, 'Pa'), 'rho': p.get_val(a.DENSITY, 'kg/m**3'), 'a': p.get_val(a.SPEED_OF_SOUND, 'm/s'),
           'mu': p.get_val(a.DYNAMIC_VISCOSITY, 'Pa*s')}
    if group:
        out |= {'TAS': p.get_val(D.Mission.VELOCITY, 'm/s'), 'q': p.get_val(a.DYNAMIC_PRESSURE, 'Pa')}
        # the group has these where the given speed makes them outputs
        for k, nm, u in (('EAS', 'EAS', 'm/s'), ('MACH', a.MACH, 'unitless')):
            out[k] = p.get_val(nm, u)
        out['rho0'] = rho0[0]
    return {k: np.array(v) for k, v in out.items()}


def laws(rec, seed):
    rng = np.random.default_rng(seed)
    E = importlib.import_module('aviary_ref.variable_info.enums').AtmosphereModel
    models = [m.name for m in E]
    model = 'STANDARD' if rng.random() < 0.35 else str(rng.choice(models))
    data, planet, radius, _, _ = table('aviary_ref', model)
    nn = int(rng.integers(1, 9))
    lo, hi = float(np.min(data.alt)), float(np.max(data.alt))
    at = rng.random() < 0.4  # at tabulated altitudes
    pick = rng.integers(0, len(data.alt), nn)
    h = np.array(data.alt, float)[pick] if at else rng.uniform(max(lo, -2000), min(hi, 45000), nn)
    dT = 0.0 if rng.random() < 0.5 else float(np.round(rng.uniform(-25, 35), 2))
    h_def = str(rng.choice(['geopotential', 'geometric']))
    R0 = radius[0]
    z = h if h_def == 'geopotential' else R0 * h / (R0 - h)
    units = str(rng.choice(['m', 'ft', 'km']))
    f = {'m': 1.0, 'ft': 1 / 0.3048, 'km': 1e-3}[units]
    group = rng.random() < 0.6
    speed = str(rng.choice(['TAS', 'EAS', 'MACH']))
    v = rng.uniform(0.05, 0.95, nn) if speed == 'MACH' else rng.uniform(5, 320, nn)
    case = {'model': model, 'dT': dT, 'h_def': h_def, 'altitude': (z * f).tolist(), 'units': units, 'group': group, 'speed': speed, 'value': v.tolist()}
    rec.case(f'{model} {h_def} {dT} {speed if group else ""} {nn} {at} {units}', case)
    rec.seen('atmosphere models', model)
    o = evaluate('aviary', model, dT, h_def, z * f, speed, v, units, group)
    molar, gamma, S, beta = GAS[planet]

    def same(name, got, want, rtol):
        rec.event('law: ' + name)
        if not np.allclose(got, want, rtol=rtol, atol=0):
            rec.violation('law: ' + name, f'{model} ({h_def}, {dT} degC offset) at {np.round(z, 3).tolist()} m: {np.asarray(got).tolist()} instead of {np.asarray(want).tolist()}', spec=case)

    T, P, rho = o['T'], o['P'], o['rho']
    same('speed of sound of the temperature', o['a'], np.sqrt(gamma * RS / molar * T), 1e-9)
    same('viscosity of the temperature', o['mu'], beta * T**1.5 / (T + S), 1e-9)
    if model == 'STANDARD':
        w = np.array([us1976(x) for x in h])
        same('standard temperature', T, w[:, 0] + dT, 4e-4)
        same('standard pressure', P, w[:, 1], 4e-4)
        same('standard density', rho, w[:, 2] * w[:, 0] / (w[:, 0] + dT), 6e-4)
    if at:
        # a tabulated altitude returns the table (rounding of the altitude may put it into the next interval)
        i = pick
        same('tabulated temperature', T, data.akima_T[i + 1][:, 0] + dT if hasattr(data, 'akima_T') else T, 1e-6)
        same('tabulated pressure', P, data.akima_P[i + 1][:, 0], 1e-6)
        if dT == 0:
            same('tabulated density', rho, data.akima_rho[i + 1][:, 0], 1e-6)
    if dT:
        base = evaluate('aviary', model, 0.0, h_def, z * f, speed, v, units, False)
        same('temperature offset', T - base['T'], np.full(nn, dT), 1e-6)
        same('pressure of an offset day', P, base['P'], 1e-9)
        same('density of an offset day', 1 / rho, 1 / base['rho'] + RS / molar * dT / base['P'], 1e-9)
    if group:
        same('true airspeed and Mach number', o['TAS'], o['MACH'] * o['a'], 1e-9)
        same('true and equivalent airspeed', o['EAS'] ** 2 * o['rho0'], o['TAS'] ** 2 * rho, 1e-9)
        same('dynamic pressure', o['q'], 0.5 * rho * o['TAS'] ** 2, 1e-7)  # (slugs and feet, rounded)
        same('given speed', o[speed], v, 1e-9)


def many(rec, seeds):
    for s in seeds:
        laws(rec, s)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = fidelity.RULE + '; or one atmosphere (model, offset, altitude definition) at random altitudes and speeds, judged by the laws'
    fidelity.run_group(chk, ['subsystems.atmosphere'], chk.pick(400, 1500), chk.pick(10, 30), per_class=chk.pick(12, None), tlim=chk.pick(20, 200))
    groupmon.run_groups(chk, ['subsystems.atmosphere'], chk.pick(12, 120), chk.pick(5, 30), per_class=chk.pick(10, None), tlim=chk.pick(12, 120))
    n = chk.pick(1200, 40000)
    s = [[chk.seed, ms.hash_of('P09'), i] for i in range(n)]
    chk.pmap(many, [s[i:i + 50] for i in range(0, n, 50)], timeout=200)
    chk.require('reference comparison', 500)
    for k, m in (('standard pressure', 200), ('speed of sound of the temperature', 800), ('true and equivalent airspeed', 400), ('temperature offset', 300), ('tabulated pressure', 300)):
        chk.require('law: ' + k, m)
