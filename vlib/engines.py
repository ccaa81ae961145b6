"""Engine decks: generated data and layouts, an independent reading of them, and the real models run on them."""

import importlib
import os
import tempfile

import numpy as np
import openmdao.api as om
from openmdao.utils.units import convert_units
from scipy.optimize import brentq

# variable -> (engine model variable, headers, default units, other units)
VARS = {
    'mach': ('MACH', ['Mach', 'm', 'MN', 'Mach Number', 'mach_number'], 'unitless', []),
    'alt': ('ALTITUDE', ['Altitude', 'alt', 'h', 'ALT'], 'ft', ['m', 'km', 'ft']),
    'thr': ('THROTTLE', ['Throttle', 'power code', 'PC', 'power_code'], 'unitless', []),
    'hyb': ('HYBRID_THROTTLE', ['Hybrid Throttle', 'hpc', 'electric_throttle'], 'unitless', []),
    'thrust': ('THRUST', ['Thrust', 'Net Thrust', 'net_thrust', 'THRUST'], 'lbf', ['N', 'kN', 'lbf']),
    'gross': ('GROSS_THRUST', ['Gross Thrust', 'gross_thrust'], 'lbf', ['N', 'lbf']),
    'ram': ('RAM_DRAG', ['Ram Drag', 'ram_drag'], 'lbf', ['N', 'lbf']),
    'tail': ('TAILPIPE_THRUST', ['Tailpipe Thrust', 'tailpipe_thrust'], 'lbf', ['N', 'lbf']),
    'fuel': ('FUEL_FLOW', ['Fuel Flow', 'fuel', 'Fuel Flow Rate', 'FUEL_FLOW'], 'lb/h', ['kg/s', 'lbm/s', 'kg/h', 'lbm/h']),
    'nox': ('NOX_RATE', ['NOx', 'NOx Rate', 'nox_rate'], 'lb/h', ['kg/h', 'lbm/h']),
    't4': ('TEMPERATURE_T4', ['T4', 'temperature', 'T4 Temperature'], 'degR', ['degK', 'degR']),
    'elec': ('ELECTRIC_POWER_IN', ['Electric Power', 'electric_power_in'], 'kW', ['W', 'hp', 'kW']),
    'rpm': ('RPM', ['RPM', 'rotations per minute'], 'rpm', ['rpm', 'rad/s']),
    'shp': ('SHAFT_POWER', ['Shaft Power', 'SHP'], 'hp', ['kW', 'hp', 'W']),
}
# outputs of the engine: (promoted name, variable of the table, scaled?)
OUT = {
    'thrust_net': 'thrust', 'nox_rate': 'nox', 'electric_power_in': 'elec', 'shaft_power': 'shp',
    't4': 't4', 'rotations_per_minute': 'rpm', 'fuel_flow_rate_negative': 'fuel',
}
UNSCALED = {'t4', 'rotations_per_minute'}
A = 'aircraft:engine:'


class Deck:
    """The truth: rows in default units, and how they were written."""


def sig(x, n=7):
    return float(f'{x:.{n}g}')


def make_deck(rng, sort, hybrid=False, small=False):
    d = Deck()
    nm, na = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    d.hybrid = hybrid
    machs = np.sort(rng.choice(np.arange(1, 16), nm, replace=False)) * 0.09
    machs[0] = 0.0
    alts = np.sort(rng.choice(np.arange(1, 12), na, replace=False)) * 4000.0 + np.round(rng.uniform(0, 900))
    alts[0] = 0.0
    ragged = rng.random() < 0.5
    conds = []
    outer, inner = (machs, alts) if sort == 'mach' else (alts, machs)
    for o in outer:
        sub = list(inner)
        if ragged and len(sub) > 2 and rng.random() < 0.5:
            sub.pop(int(rng.integers(1, len(sub))))
        for i in sub:
            conds.append((o, i) if sort == 'mach' else (i, o))
    # the whole deck may share one throttle range or have one of its own at every condition
    base = np.round(np.sort(rng.uniform(5, 100, int(rng.integers(3, 6)))), 2)
    own = rng.random() < 0.5
    neg = rng.random() < 0.4
    coef = rng.uniform(0.5, 1.5, 12)
    cols = ['mach', 'alt', 'thr'] + (['hyb'] if hybrid else [])
    form = str(rng.choice(['net', 'net', 'gross', 'both', 'tail', 'net+tail']))
    d.form = form
    cols += {'net': ['thrust'], 'gross': ['gross', 'ram'], 'both': ['gross', 'ram', 'thrust'], 'tail': ['tail'], 'net+tail': ['thrust', 'tail']}[form]
    if form == 'tail':
        cols = [c for c in cols if c != 'tail'] + ['thrust', 'tail']
        d.form = 'net+tail'
    opt = [c for c in ('fuel', 'nox', 't4', 'elec', 'rpm', 'shp') if rng.random() < (0.85 if c == 'fuel' else 0.35)]
    cols += opt
    rows = []
    hs = sorted(rng.choice([-1.0, -0.5, 0.4, 1.0, 2.0], 2, replace=False).tolist() + [0.0]) if hybrid else [0.0]
    if hybrid and hs[-1] <= 0:
        hs = [-1.0, 0.0, 1.0]
    for m, a in conds:
        th = base
        if own:
            th = np.round(np.sort(rng.uniform(5, 100, int(rng.integers(3, 6)))), 2)
            while np.min(np.diff(th)) < 0.5:
                th = np.round(np.sort(rng.uniform(5, 100, 4)), 2)
        for t in th:
            for h in hs:
                u = t / 100
                net = 24000 * coef[0] * (u ** 1.3) * np.exp(-a / 45000) * (1 - 0.25 * m) + 900 * coef[1] * h + (-900 * m - (500 if neg and m > 0 else 0)) * (1 - u)
                if not neg:
                    net = abs(net) + 40
                net += rng.normal(0, 1) * 3
                ram = 4000 * m * coef[2] * (0.4 + u) + 20
                v = {
                    'mach': m, 'alt': a, 'thr': t, 'hyb': h, 'thrust': net, 'ram': ram, 'gross': net + ram, 'tail': 150 * u * coef[3] + 5,
                    'fuel': 300 + 9000 * u * coef[4] * np.exp(-a / 50000) - 300 * h + rng.uniform(0, 20), 'nox': 3 + 80 * u ** 2 * coef[5] + m,
                    't4': 1500 + 1600 * u * coef[6] + 100 * m, 'elec': 200 * h * u * coef[7] + 10 * m + 1, 'rpm': 4000 + 9000 * u * coef[8] + a / 100,
                    'shp': 120 + 4000 * u * coef[9] * np.exp(-a / 60000),
                }
                rows.append(v)
    d.cols = cols
    d.given = rows
    d.sort = sort
    return d


def layout(rng, d, plain=False):
    """Units, headers and the numbers as written."""
    L = Deck()
    L.units = {}
    L.heads = {}
    for c in d.cols:
        _, heads, u, others = VARS[c]
        L.units[c] = str(rng.choice(others)) if others and rng.random() < 0.6 and not plain else u
        L.heads[c] = str(rng.choice(heads))
    L.order = list(d.cols)
    if rng.random() < 0.5 and not plain:
        rng.shuffle(L.order)
    L.rows = np.arange(len(d.given))
    if rng.random() < 0.6:
        L.rows = rng.permutation(len(d.given))
    L.source = str(rng.choice(['file', 'file', 'memory']))
    L.seed = int(rng.integers(1 << 30))
    return L


def written(d, L):
    """The numbers of every column in the units of the layout."""
    out = {}
    for c in d.cols:
        v = np.array([r[c] for r in d.given])
        u0 = VARS[c][2]
        if L.units[c] != u0:
            v = convert_units(v, u0, L.units[c])
        out[c] = np.array([sig(x, 12) for x in v])
    return out


def write(d, L, path):
    rng = np.random.default_rng(L.seed)
    w = written(d, L)
    sep = str(rng.choice([', ', ',', ' ,  ', '; ']))
    lines = ['# an engine deck', '#   Altitude, thrust: comments only', '']
    if rng.random() < 0.3:
        lines = []

    def head(c):
        h = L.heads[c]
        u = L.units[c]
        if u == 'unitless':
            return h
        return h + (' ' if rng.random() < 0.7 else '') + f'({u})'

    lines.append(sep.join(head(c) for c in L.order))
    for i in L.rows:
        if rng.random() < 0.03:
            lines.append('' if rng.random() < 0.5 else '   # 1, 2, 3')
        lines.append(('  ' if rng.random() < 0.2 else '') + sep.join(repr(float(w[c][i])) for c in L.order) + ('  # note' if rng.random() < 0.05 else ''))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def memory(pkg, d, L):
    NV = importlib.import_module(pkg + '.utils.named_values').NamedValues
    V = importlib.import_module(pkg + '.subsystems.propulsion.utils').EngineModelVariables
    aliases = importlib.import_module(pkg + '.subsystems.propulsion.engine_deck').aliases
    rng = np.random.default_rng(L.seed)
    w = written(d, L)
    nv = NV()
    for c in L.order:
        var = V[VARS[c][0]]
        key = var if rng.random() < 0.6 else str(rng.choice(aliases[var]))
        nv.set_val(key, w[c][L.rows], L.units[c])
    return nv


def engine(pkg, d, L, opts, name='engine', path=None):
    AV = importlib.import_module(pkg + '.utils.aviary_values').AviaryValues
    ED = importlib.import_module(pkg + '.subsystems.propulsion.engine_deck').EngineDeck
    o = AV()
    o.set_val('settings:verbosity', importlib.import_module(pkg + '.variable_info.enums').Verbosity.QUIET)
    for k, (v, u) in opts.items():
        o.set_val(k, v, u)
    data = None
    if L.source == 'file' or path is not None:
        o.set_val(A + 'data_file', path)
    else:
        data = memory(pkg, d, L)
    return ED(name=name, options=o, data=data)


def group(pkg, eng, n):
    AV = importlib.import_module(pkg + '.utils.aviary_values').AviaryValues
    F = importlib.import_module(pkg + '.variable_info.functions')
    pp = importlib.import_module(pkg + '.utils.preprocessors')
    av = AV()
    av.set_val('settings:verbosity', importlib.import_module(pkg + '.variable_info.enums').Verbosity.QUIET)
    pp.preprocess_propulsion(av, [eng])
    p = om.Problem(reports=False)
    p.model.add_subsystem('e', eng.build_mission(n, av, {}, {}), promotes=['*'])
    F.setup_model_options(p, av, engine_models=[eng])
    p.model.set_input_defaults('mach', np.zeros(n), 'unitless')
    p.model.set_input_defaults('altitude', np.zeros(n), 'ft')
    p.setup(check=False)
    return p, av


def run_points(p, pts, hybrid, sf):
    p.set_val('mach', pts[:, 0])
    p.set_val('altitude', pts[:, 1], units='ft')
    p.set_val('throttle', pts[:, 2])
    if hybrid:
        p.set_val('hybrid_throttle', pts[:, 3])
    p.set_val(A + 'scale_factor', sf)
    p.run_model()
    return {m['prom_name']: np.array(p.get_val(m['prom_name'])) for _, m in p.model.list_outputs(prom_name=True, out_stream=None) if '.' not in m['prom_name']}


# ------------------------------------------------------------------- the independent reading
RE = 6356766.0


def geometric(h_ft, radius_m, g):
    """Geometric altitude of a geopotential one (the oblate, rotating Earth of the deck convention)."""
    def H(z):
        r = radius_m + z
        gn = 9.8236930 * (radius_m / r) ** 1.9985
        return (r * gn * ((r / radius_m) ** 0.9985 - 1) / 0.9985 - z * (r - z / 2) * 26.76566e-10) / g

    h = h_ft * 0.3048
    return brentq(lambda z: H(z) - h, h - 500, h + 2000) / 0.3048


def table(d, L, opts):
    """Rows in default units with normalized throttles, before idle points: {var: array}, or a reason it has to be rejected."""
    w = written(d, L)
    t = {}
    for c in d.cols:
        u = VARS[c][2]
        t[c] = convert_units(w[c], L.units[c], u) if L.units[c] != u else w[c].copy()
    if d.form == 'gross':
        t['thrust'] = t['gross'] - t['ram']
    if 'tail' in t:
        t['thrust'] = t['thrust'] + t['tail']
    if opts.get(A + 'ignore_negative_thrust', (False, None))[0]:
        keep = t['thrust'] >= 0
        t = {k: v[keep] for k, v in t.items()}
    for c in ('gross', 'ram', 'tail'):
        t.pop(c, None)
    return t


def order(t, sort, hybrid):
    ks = (['hyb'] if hybrid else []) + ['thr'] + (['alt', 'mach'] if sort == 'mach' else ['mach', 'alt'])
    i = np.lexsort([t[k] for k in ks])
    return {k: v[i] for k, v in t.items()}


def conditions(t):
    """Row numbers of each flight condition."""
    c = {}
    for i, (m, a) in enumerate(zip(t['mach'], t['alt'])):
        c.setdefault((float(m), float(a)), []).append(i)
    return c


def norm_hybrid(h):
    h = h.copy()
    n, p = h < 0, h > 0
    if n.any():
        h[n] = h[n] / -h.min()
    if p.any():
        h[p] = h[p] / h.max()
    return h


def normalize(t, glob, ghyb, hybrid):
    t = dict(t)
    thr = t['thr'].astype(float).copy()
    if glob:
        thr = (thr - thr.min()) / (thr.max() - thr.min())
    else:
        for ix in conditions(t).values():
            x = thr[ix]
            thr[ix] = (x - x.min()) / (x.max() - x.min())
    t['thr'] = thr
    if hybrid:
        h = t['hyb'].astype(float).copy()
        if ghyb:
            h = norm_hybrid(h)
        else:
            for ix in conditions(t).values():
                h[ix] = norm_hybrid(h[ix])
        t['hyb'] = h
    return t


def interp(X, Y, x):
    """Nested linear interpolation over semi-structured points."""
    if X.shape[1] == 0:
        return Y[0]
    u = np.unique(X[:, 0])
    if u.size == 1:
        return interp(X[:, 1:], Y, x[1:])
    i = int(np.clip(np.searchsorted(u, x[0], side='right') - 1, 0, u.size - 2))
    a, b = X[:, 0] == u[i], X[:, 0] == u[i + 1]
    f0 = interp(X[a][:, 1:], Y[a], x[1:])
    f1 = interp(X[b][:, 1:], Y[b], x[1:])
    s = (x[0] - u[i]) / (u[i + 1] - u[i])
    return f0 + s * (f1 - f0)


def fuel(ff, sf, mach, o):
    g = lambda k, dv: o.get(A + k, (dv, None))[0]
    ms = np.where(mach >= 1.0, g('supersonic_fuel_flow_scaler', 1.0), g('subsonic_fuel_flow_scaler', 1.0))
    eq = 1 + g('fuel_flow_scaler_constant_term', 0.0) + g('fuel_flow_scaler_linear_term', 0.0) * (1 - sf)
    return -(ff * sf * ms * eq + g('constant_fuel_flow', 0.0))


def fleet(pkg, engs, counts, n):
    """The mission propulsion of an aircraft with these engines: (problem, aircraft options)."""
    AV = importlib.import_module(pkg + '.utils.aviary_values').AviaryValues
    F = importlib.import_module(pkg + '.variable_info.functions')
    pp = importlib.import_module(pkg + '.utils.preprocessors')
    PM = importlib.import_module(pkg + '.subsystems.propulsion.propulsion_mission').PropulsionMission
    av = AV()
    av.set_val('settings:verbosity', importlib.import_module(pkg + '.variable_info.enums').Verbosity.QUIET)
    pp.preprocess_propulsion(av, engs)
    p = om.Problem(reports=False)
    p.model.add_subsystem('propulsion', PM(num_nodes=n, aviary_options=av, user_options={}, engine_models=engs), promotes=['*'])
    F.setup_model_options(p, av, engine_models=engs)
    p.model.set_input_defaults('mach', np.full(n, 0.1), 'unitless')
    p.model.set_input_defaults('altitude', np.full(n, 100.0), 'ft')
    k = len(engs)
    p.model.set_input_defaults('throttle', np.full((n, k) if k > 1 else n, 0.5), 'unitless')
    if any(e.use_hybrid_throttle for e in engs):
        p.model.set_input_defaults('hybrid_throttle', np.zeros((n, k) if k > 1 else n), 'unitless')
    p.setup(check=False)
    return p, av


def fly(p, engs, av, pts):
    """pts: (n, 2 + 2 k): mach, altitude, throttles, hybrid throttles."""
    k = len(engs)
    p.set_val('mach', pts[:, 0])
    p.set_val('altitude', pts[:, 1], units='ft')
    p.set_val('throttle', pts[:, 2:2 + k] if k > 1 else pts[:, 2])
    if any(e.use_hybrid_throttle for e in engs):
        p.set_val('hybrid_throttle', pts[:, 2 + k:2 + 2 * k] if k > 1 else pts[:, 3])
    p.set_val(A + 'scale_factor', np.ravel(av.get_val(A + 'scale_factor')))
    p.run_model()
    out = {}
    for _, m in p.model.list_outputs(prom_name=True, out_stream=None):
        if '.' not in m['prom_name'] and not m['prom_name'].startswith('_'):
            out[m['prom_name']] = np.array(p.get_val(m['prom_name']))
    return out
