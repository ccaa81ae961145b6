"""Reports and exported tables state what the problem holds."""
import copy
import csv
import importlib
import json
import os
import re
import shutil
import sys
import tempfile

import numpy as np
from openmdao.utils.units import convert_units

from vlib import gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import eval_limit

TAB = '&nbsp;' * 8
INF = {'infinity': np.inf, '-infinity': -np.inf}


# ------------------------------------------------------------------ problems
class Deck:
    """An engine model of its own for the fleet of a problem."""

    def __init__(self, name, deck, count, thrust, factor, wing):
        self.name, self.deck, self.count, self.thrust, self.factor, self.wing = name, deck, count, thrust, factor, wing

    def __call__(self, pkg):
        pu = importlib.import_module(pkg + '.subsystems.propulsion.utils')
        av, _ = vp.vehicle(pkg, self.deck)
        av.set_val('aircraft:engine:num_engines', self.count)
        av.set_val('aircraft:engine:num_wing_engines', self.count if self.wing else 0)
        av.set_val('aircraft:engine:num_fuselage_engines', 0 if self.wing else self.count)
        for n in ('scaled_sls_thrust', 'scale_factor', 'reference_sls_thrust'):
            if 'aircraft:engine:' + n in av and n != 'reference_sls_thrust':
                av.delete('aircraft:engine:' + n)
        if self.thrust is not None:
            av.set_val('aircraft:engine:scaled_sls_thrust', self.thrust, 'lbf')
        else:
            av.set_val('aircraft:engine:scale_factor', self.factor)
        if 'aircraft:engine:wing_locations' in av:
            av.delete('aircraft:engine:wing_locations')
        if self.wing:
            av.set_val('aircraft:engine:wing_locations', np.linspace(0.25, 0.6, max(self.count // 2, 1)))
        eng = pu.build_engine_deck(av)
        eng.name = self.name
        return eng

    def __repr__(self):
        return f'{self.name}: {self.count} x {self.deck} {self.thrust or self.factor}'


def fleet(rng):
    n = int(rng.integers(2, 4))
    out = []
    for i in range(n):
        t = float(np.round(rng.uniform(8000, 26000), 1)) if rng.random() < 0.6 else None
        f = float(np.round(rng.uniform(0.4, 1.1), 4))
        # (every engine type on the wing: fleets with fuselage-mounted engines do not set up)
        out.append(Deck(f'engine_{i}', str(rng.choice(['asa', 'lsa1', 'lsa2'])), int(rng.choice([2, 4])) if i == 0 else 2, t, f, True))
    return out


def case(rng, kind):
    if kind == 'fleet':
        spec, labels = ms.make_spec(rng, 'ES', 1)
        spec['deck'] = 'asa'
        spec['values'] = {}
        spec['drop'] = ['aircraft:nacelle:total_wetted_area']
        engs = fleet(rng)
        spec['external'] = engs
        T = gen.ref('variable_info.enums', 'ThrottleAllocation')
        for p in ms.phases_of(spec):
            spec['phase_info'][p]['user_options']['throttle_allocation'] = [T.FIXED, T.STATIC, T.DYNAMIC][int(rng.integers(3))]
        n = len(engs)
        for k in ('nacelle:laminar_flow_lower', 'nacelle:laminar_flow_upper'):
            spec['values']['aircraft:' + k] = (np.zeros(n), 'unitless')
        spec['drop'].append('aircraft:engine:wing_locations')
        spec['values']['aircraft:nacelle:avg_diameter'] = (np.round(rng.uniform(5, 9, n), 2), 'ft')
        spec['values']['aircraft:nacelle:avg_length'] = (np.round(rng.uniform(9, 15, n), 2), 'ft')
        return spec, labels + [f'{n} engine types'], 'ES'
    if kind == 'sub':
        from checks import m10

        spec, labels, decls, _ = m10.case(rng, 'ES')
        return spec, labels + ['subsystems'], 'ES'
    spec, labels = ms.make_spec(rng, kind, 2)
    return spec, labels, kind


def over(rng, spec, eom):
    """Values that override what the aircraft models compute, and driver-side inputs."""
    if eom == 'S2DOF' or spec.get('missions'):
        return
    cand = [('aircraft:wing:mass', 1.4e4, 1.7e4, 'lbm'), ('aircraft:fuselage:mass', 1.5e4, 1.9e4, 'lbm'), ('aircraft:landing_gear:main_gear_mass', 5e3, 7e3, 'lbm'),
            ('aircraft:horizontal_tail:mass', 1e3, 3e3, 'lbm'), ('aircraft:furnishings:mass', 9e3, 1.6e4, 'lbm'), ('aircraft:wing:wetted_area', 1500, 2600, 'ft**2'),
            ('aircraft:design:structure_mass', 4e4, 5e4, 'lbm'), ('aircraft:fuel:max_capacity_mass', 3e4, 5e4, 'lbm')]
    for i in rng.permutation(len(cand))[: int(rng.integers(0, 4))]:
        n, lo, hi, u = cand[i]
        spec.setdefault('values', {})[n] = gen.reunit(rng, float(np.round(rng.uniform(lo, hi), 3)), u)


# ------------------------------------------------------------------ reading values of the problem
class View:
    """Values of (one mission of) a problem by name and units, read through OpenMDAO."""

    def __init__(self, p, prefix=''):
        self.p, self.prefix = p, prefix
        group = p.model if not prefix else getattr(p.model, prefix)
        self.group = group
        self.inputs = (p.aviary_inputs if not prefix else group.aviary_inputs)
        self.subsystems = group.subsystems
        self.engines = group.engine_models
        self.meta = p.meta_data
        self.info = group.mission_info

    def name(self, n):
        return f'{self.prefix}.{n}' if self.prefix else n

    def get(self, n, units=None):
        try:
            return np.array(self.p.get_val(self.name(n), units=units))
        except KeyError:
            return None

    def any(self, n, units):
        """From the model, or from the inputs it was built with."""
        v = self.get(n, units)
        if v is None and n in self.inputs:
            try:
                v = np.array(self.inputs.get_val(n, units))
            except Exception:
                return None
        return v

    def outputs(self):
        """{name in this mission: (units, absolute name)} of the outputs."""
        out = {}
        res = self.p.model._resolver
        pre = self.prefix + '.' if self.prefix else ''
        for a, m in self.p.model._var_allprocs_abs2meta['output'].items():
            n = res.abs2prom(a, 'output')
            if not a.startswith('_auto_ivc') and n.startswith(pre):
                out[n[len(pre):]] = (m.get('units'), a)
        return out


def shown(want, text):
    """Does a number of a table (rounded to two decimals, or five figures below one) state `want`?"""
    try:
        got = float(text)
    except ValueError:
        return False
    if not np.isfinite(want):
        return not np.isfinite(got) and str(got) == str(float(want))
    if got == want:
        return True
    tol = 0.0051 if abs(want) >= 1 else 0.006 * abs(want)
    return abs(got - want) <= max(tol, 2e-9 * abs(want)) + 1e-14


def numbers(text):
    return re.findall(r'[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)', text)


def stated(want, text):
    want = np.ravel(want)
    got = numbers(text)
    return len(got) == len(want) and all(shown(float(w), g) for w, g in zip(want, got))


def table(text):
    """Rows of all tables of a markdown text as (section path, cells)."""
    path, rows = [], []
    for line in text.split('\n'):
        h = re.match(r'^(#+) (.*)$', line)
        if h:
            d = len(h.group(1))
            path = path[: d - 1] + [h.group(2)]
        elif line.startswith('|'):
            c = [x.strip() for x in line.strip()[1:].removesuffix('|').split('|')]
            if not all(re.fullmatch(r':?-*:?', x) for x in c) and c[0] not in ('Variable Name', 'Name'):
                rows.append((tuple(path), c))
    return rows


# ------------------------------------------------------------------ monitors
def mission_summary(rec, views, text, replay, multi):
    rows = table(text)
    want = []
    for name, v in views.items():
        ph = [k for k in v.info]
        first, last = ph[0], ph[-1]

        def series(phase, var, units):
            x = v.get(f'traj.{phase}.timeseries.{var}', units)
            return None if x is None else np.ravel(x)

        tot = {
            'Total Fuel Burn': (np.ravel(v.get('mission:fuel_mass', 'lbm'))[0], 'lbm'),
            'Total Fuel Capacity': (np.ravel(v.get('aircraft:fuel:max_capacity_mass', 'lbm'))[0], 'lbm'),
            'Excess Fuel Capacity': (np.ravel(v.get('mission:constraints:excess_fuel_mass_capacity', 'lbm'))[0], 'lbm'),
            'Total Time': (series(last, 'time', 'min')[-1] - series(first, 'time', 'min')[0], 'min'),
            'Total Ground Distance': (series(last, 'distance', 'nmi')[-1] - series(first, 'distance', 'nmi')[0], 'nmi'),
        }
        want.append((name, 'total', tot))
        for q in ph:
            d = {}
            for row, var, u, sgn in (('Fuel Burn', 'mass', 'lbm', -1), ('Elapsed Time', 'time', 'min', 1), ('Ground Distance', 'distance', 'nmi', 1)):
                x = series(q, var, u)
                if x is not None:
                    d[row] = (sgn * (x[-1] - x[0]), u)
            want.append((name, q, d))
    got = {}
    mission = next(iter(views))
    section = None
    order = []
    for line in text.split('\n'):
        h = re.match(r'^(#+) (.*)$', line)
        if h:
            if h.group(2).startswith('MULTIMISSION: '):
                mission = h.group(2)[14:]
            elif h.group(2) == 'MISSION SUMMARY':
                section = 'total'
            elif len(h.group(1)) == 2:
                section = h.group(2)
            continue
        if line.startswith('|') and section:
            c = [x.strip() for x in line.strip()[1:].removesuffix('|').split('|')]
            if len(c) == 3 and c[0] not in ('Variable Name', ':-'):
                if (mission, section) not in order:
                    order.append((mission, section))
                got[mission, section, c[0]] = c[1:]
    if order != [(m, s) for m, s, _ in want]:
        rec.violation('mission summary lists other phases than the mission has', f'{order} for {[(m, s) for m, s, _ in want]}', spec=replay)
    for m, s, d in want:
        for row, (w, u) in d.items():
            g = got.get((m, s, row))
            rec.event('mission summary number')
            if g is None:
                rec.violation(f'mission summary lacks {row}', f'{m} {s}: {row} is missing', spec=replay)
            elif not (shown_diff(float(w), g[0]) and g[1] == u):
                rec.violation(f'mission summary: {"total" if s == "total" else "phase"} {row}', f'{m} {s}: {row} is stated as {g}, the problem holds {w!r} {u}', spec=replay)


def shown_diff(w, g):
    """Differences may carry the cancellation of what they are made of."""
    if shown(w, g):
        return True
    try:
        return abs(float(g) - w) <= 1e-6
    except ValueError:
        return False


def same(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)


def timeseries(rec, v, path, replay):
    with open(path, newline='') as f:
        lines = list(csv.reader(f))
    head, body = lines[0], lines[1:]
    cols = {}
    for i, h in enumerate(head):
        m = re.fullmatch(r'(.*) \((.*)\)', h)
        if not m:
            rec.violation('timeseries header', f'column {h!r} names no units', spec=replay)
            continue
        if m.group(1) in cols:
            rec.violation('timeseries column twice', f'{m.group(1)} appears twice', spec=replay)
        cols[m.group(1)] = (m.group(2), np.array([float(r[i]) if r[i] != '' else np.nan for r in body]))
    if head and not head[0].startswith('time ('):
        rec.violation('timeseries first column', f'the first column is {head[0]}, not time', spec=replay)
    # what the trajectory holds
    outs = v.outputs()
    phases = list(v.group.traj._phases)
    held = {}
    lens = {}
    for n, (u, a) in outs.items():
        m = re.fullmatch(r'traj\.([^.]+)\.timeseries\.(.+)', n)
        if m and not m.group(2).endswith('_phase') and m.group(1) in phases:
            x = np.array(v.p.get_val(a))
            held.setdefault(m.group(2), {})[m.group(1)] = (x.reshape(x.shape[0], -1), u)
            lens[m.group(1)] = x.shape[0]
    total = sum(lens[q] for q in phases)
    want = {}
    for var, d in held.items():
        var = var.split('.')[-1]
        width = max(x.shape[1] for x, _ in d.values())
        unit = next(d[q][1] for q in phases if q in d)
        parts = []
        for q in phases:
            if q not in d:
                parts.append(np.full((lens[q], width), np.nan))
            else:
                x, u = d[q]
                if u != unit and u is not None and unit is not None:
                    x = convert_units(x, u, unit)
                parts.append(x)
        want[var] = (unit, np.vstack(parts))
    named = {}
    for var, (u, x) in want.items():
        if x.shape[1] == 1:
            named[var] = (u, x[:, 0])
        else:
            for k in range(x.shape[1]):
                named[f'{var}_{k}'] = (u, x[:, k])
    if set(named) != set(cols):
        rec.violation('timeseries columns', f'missing {sorted(set(named) - set(cols))[:5]}, unexpected {sorted(set(cols) - set(named))[:5]}', spec=replay)
        return
    # rows which repeat the row before may be left out
    order = sorted(named)
    W = np.column_stack([named[n][1] for n in order])
    G = np.column_stack([cols[n][1] for n in order])
    W2, G2 = dedupe(W), dedupe(G)
    rec.event('timeseries column', len(order))
    rec.event('timeseries row', len(W))
    if W2.shape != G2.shape:
        rec.violation('timeseries rows', f'{len(G)} rows ({len(G2)} without repetition) for {total} nodes ({len(W2)})', spec=replay)
        return
    for k, n in enumerate(order):
        u, cu = named[n][0], cols[n][0]
        if not (u == cu or (u is None and cu in ('None', 'unitless'))):
            rec.violation('timeseries units', f'{n} is given in {cu}, the trajectory has {u}', spec=replay)
        elif not same(W2[:, k], G2[:, k]):
            i = int(np.argmax(~np.isclose(W2[:, k], G2[:, k], rtol=1e-9, atol=1e-9, equal_nan=True)))
            rec.violation(f'timeseries value: {n}', f'row {i}: {G2[i, k]!r} {cu} for {W2[i, k]!r} {u}', spec=replay)


def dedupe(x):
    keep = [0] + [i for i in range(1, len(x)) if not np.array_equal(x[i], x[i - 1], equal_nan=True)]
    return x[keep]


def input_checks(rec, p, views, text, replay, multi):
    """Listed = fed by nothing and not given in the inputs; values as the problem holds them."""
    model = p.model
    res = model._resolver
    fed = {}
    for a, src in model._conn_global_abs_in2out.items():
        if src.startswith('_auto_ivc.'):
            fed.setdefault(res.abs2prom(a, 'input'), []).append(a)
    want = {}
    for n, absn in fed.items():
        short = n
        given = False
        for name, v in views.items():
            pre = name + '.' if multi else ''
            if multi and n.startswith(pre):
                short = n[len(pre):]
            given = given or n in v.inputs or (multi and n.startswith(pre) and n[len(pre):] in v.inputs)
        if given:
            continue
        hier = n.startswith(('mission:', 'aircraft:')) or '.mission:' in n or '.aircraft:' in n
        if not hier and n.startswith('traj') and '.rhs_all.' not in n:
            continue
        want[n] = (hier, absn)
    got = {}
    part = None
    rows = re.split(r'\n(?=\||#|\n)', text)
    for r in rows:
        r = r.strip('\n')
        if r.startswith('# Unspecified Hierarchy'):
            part = True
        elif r.startswith('# Unspecified Local'):
            part = False
        m = re.match(r'\| \*\*(.*?)\*\* \| (.*?) \| (.*?) \| (.*)\|\s*$', r, re.S)
        if m:
            got[m.group(1)] = (part, m.group(2), m.group(3), m.group(4))
    rec.event('unspecified input listed', len(want))
    if set(got) != set(want):
        lack, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        if lack:
            rec.violation('input report lacks an unspecified input', f'not listed: {lack[:5]} (of {len(lack)})', spec=replay)
        if extra:
            rec.violation('input report lists a specified input', f'listed without reason: {extra[:5]} (of {len(extra)})', spec=replay)
    for n in set(got) & set(want):
        part, val, units, rest = got[n]
        if part != want[n][0]:
            rec.violation('input report section', f'{n} is listed under the wrong heading', spec=replay)
        if '...' in val:
            continue
        try:
            u = None if units in ('None', 'unitless') else units
            x = np.ravel(np.array(p.get_val(n, units=u), float))
        except (TypeError, ValueError) as e:
            rec.stat('unspecified input not compared: ' + type(e).__name__)
            continue
        g = np.array([float(t) for t in numbers(val)])
        rec.event('unspecified input value')
        if g.shape != x.shape or not np.allclose(g, x, rtol=1e-6, atol=1e-7 * max(1.0, float(np.max(np.abs(x), initial=0))), equal_nan=True):
            rec.violation('input report value', f'{n} is stated as {val[:100]} {units}, the problem holds {x[:5]}', spec=replay)
        for a in want[n][1]:
            if repr(a) not in rest:
                rec.violation('input report paths', f'{n}: {a} is not among the listed paths', spec=replay)


def overridden(rec, views, text, replay, multi):
    got = {}
    mission = next(iter(views)) if not multi else None
    part = None
    for line in text.split('\n'):
        if line.startswith('# MULTIMISSION: '):
            mission = line[16:].strip()
        elif line.startswith('## Internal'):
            part = 'in'
        elif line.startswith('## External'):
            part = 'ext'
        elif line.startswith('| ') and not line.startswith(('| Name', '| --')):
            c = [x.strip() for x in line.strip()[1:].removesuffix('|').split('|')]
            got.setdefault((mission, part), {})[c[0]] = c[1:]
    for name, v in views.items():
        outs = v.outputs()
        core = {n.split('AIRCRAFT_DATA_OVERRIDE:', 1)[1] for n in outs if 'AIRCRAFT_DATA_OVERRIDE:' in n}
        ext = {n.split('EXTERNAL_SUBSYSTEM_OVERRIDE:', 1)[1] for n in outs if 'EXTERNAL_SUBSYSTEM_OVERRIDE:' in n}
        lst = got.get((name, 'in'), {})
        rec.event('overridden variable listed', len(core))
        if set(lst) != core:
            rec.violation('overrides listed', f'{name}: listed {sorted(set(lst) - core)[:5]} without reason, not listed {sorted(core - set(lst))[:5]}', spec=replay)
        for n in set(lst) & core:
            val, units = lst[n]
            x = v.get(n, None if units in ('None', 'unitless') else units)
            if x is None:
                rec.stat('override of something nothing reads')
                continue
            x = np.ravel(x)
            g = [float(t) for t in numbers(val)]
            rec.event('overridden value')
            if len(g) != len(x) or not all(abs(a - b) <= 0.0051 * abs(b) + 1e-12 for a, b in zip(g, x)):
                rec.violation(f'override value: {n}', f'{n} is stated as {val} {units}, the problem holds {x}', spec=replay)
        lst = got.get((name, 'ext'), {})
        if set(lst) != ext:
            rec.violation('external overrides listed', f'{name}: {sorted(lst)} for {sorted(ext)}', spec=replay)
        for n in set(lst) & ext:
            rec.event('external override path')
            src = outs.get(n, (None, None))[1]
            if src is None or not src.endswith(lst[n][0]):
                rec.violation('external override path', f'{n}: the report names {lst[n][0]} as overriding, the value comes from {src}', spec=replay)


MASS = [
    ('Wing', 'aircraft:wing:mass', 0), ('Empennage Group', 'aircraft:design:empennage_mass', 0), ('Canard', 'aircraft:canard:mass', 1),
    ('Horizontal Tail', 'aircraft:horizontal_tail:mass', 0), ('Vertical Tail', 'aircraft:vertical_tail:mass', 0), ('Fins', 'aircraft:fins:mass', 1),
    ('Fuselage', 'aircraft:fuselage:mass', 0), ('Landing Gear Group', 'aircraft:landing_gear:total_mass', 0), ('Main Gear', 'aircraft:landing_gear:main_gear_mass', 1),
    ('Nose Gear', 'aircraft:landing_gear:nose_gear_mass', 1), ('Paint', 'aircraft:paint:mass', 1),
    ('Additional Structural Mass', 'aircraft:design:structural_mass_increment', 1), ('Structure Mass', 'aircraft:design:structure_mass', 0),
    ('Propulsion Group', 'aircraft:propulsion:mass', 0), ('Engines', 'aircraft:propulsion:total_engine_mass', 0),
    ('Thrust Reversers', 'aircraft:propulsion:total_thrust_reversers_mass', 1), ('Fuel System', 'aircraft:fuel:fuel_system_mass', 1),
    ('Miscellaneous', 'aircraft:propulsion:total_misc_mass', 1), ('Battery', 'aircraft:battery:mass', 1),
    ('Systems and Equipment', 'aircraft:design:systems_and_equipment_mass', 0), ('Flight Controls', 'aircraft:controls:mass', 1),
    ('Auxiliary Power', 'aircraft:apu:mass', 1), ('Instruments', 'aircraft:instruments:mass', 1), ('Hydraulics', 'aircraft:hydraulics:mass', 1),
    ('Electrical', 'aircraft:electrical:mass', 1), ('Avionics', 'aircraft:avionics:mass', 1), ('Furnishings', 'aircraft:furnishings:mass', 1),
    ('Environmental Control', 'aircraft:air_conditioning:mass', 1), ('Anti-Icing', 'aircraft:anti_icing:mass', 1), ('Oxygen System', 'aircraft:oxygen_system:mass', 1),
    ('External Subsystems', 'aircraft:design:external_subsystems_mass', 0), ('Empty Mass Margin', 'aircraft:design:empty_mass_margin', 1),
    ('Empty Mass', 'aircraft:design:empty_mass', 0), ('Operating Items', 'mission:operating_items_mass', 0), ('Flight Crew', 'aircraft:crew_and_payload:flight_crew_mass', 1),
    ('Cabin Crew', 'aircraft:crew_and_payload:cabin_crew_mass', 1), ('Passenger Service', 'aircraft:crew_and_payload:passenger_service_mass', 1),
    ('Cargo Containers', 'aircraft:crew_and_payload:cargo_container_mass', 1), ('Unusable Fuel', 'aircraft:fuel:unusable_fuel_mass', 1),
    ('Oil', 'aircraft:propulsion:total_engine_oil_mass', 1), ('Operating Mass', 'mission:operating_mass', 0),
    ('Payload', 'aircraft:crew_and_payload:total_payload_mass', 0), ('Passengers and Baggage', 'aircraft:crew_and_payload:passenger_payload_mass', 0),
    ('Cargo', 'aircraft:crew_and_payload:cargo_mass', 0), ('Zero Fuel Mass', 'mission:zero_fuel_mass', 0), ('Mission Fuel', 'mission:fuel_mass', 1),
    ('Reserve Fuel', 'mission:reserve_fuel_mass', 1), ('Gross Mass', 'mission:gross_mass', 0),
]


def mass_table(rec, v, text, replay):
    names = {e.name for e in v.engines}
    rows = []
    for _, c in table(text):
        c = [x.replace('&nbsp;', '').replace('*', '').strip() for x in c]
        if len(c) >= 3 and c[0]:
            rows.append(c)
    labels = dict((a, b) for a, b, _ in MASS)
    seen = {}
    part = None
    nums = [int(x) for x in np.ravel(v.inputs.get_val('aircraft:engine:num_engines'))]
    for c in rows:
        label, val, units = c[:3]
        if label == 'Nacelles':
            part = 'aircraft:nacelle:mass'
            x = v.any(part, units or 'lbm')
            if x is not None:
                rec.event('mass table number')
                x = np.ravel(x)
                x = x if len(x) == len(nums) else np.full(len(nums), x[0])
                g = numbers(val)
                if len(g) != 1 or not abs(float(g[0]) - float(np.dot(x, nums))) <= 0.0051 * (1 + sum(nums)):
                    rec.violation('mass report: Nacelles', f'stated as {val} {units}, the problem holds {x} x {nums}', spec=replay)
            continue
        if label in names and label not in labels:
            i = [e.name for e in v.engines].index(label)
            x = v.any(part, units)
            m = re.fullmatch(r'(\S+) \((\S+) total\)', val)
            seen.setdefault((part, label), 0)
            seen[part, label] += 1
            if x is None:
                continue
            x = np.ravel(x)
            w = float(x[i] if len(x) == len(nums) else x[0])
            rec.event('mass of an engine type')
            if not m or not shown(w, m.group(1)) or abs(float(m.group(2)) - w * nums[i]) > 0.0051 * nums[i] + 1e-9:
                rec.violation(f'mass report: {part} of an engine type', f'{label} is stated as {val}, the problem holds {w} and {nums[i]} of them', spec=replay)
            continue
        if label == 'Engines':
            part = 'aircraft:engine:mass'
        if label in ('Total Crew', 'Total Fuel'):
            a, b = (('aircraft:crew_and_payload:flight_crew_mass', 'aircraft:crew_and_payload:cabin_crew_mass') if label == 'Total Crew' else
                    ('mission:fuel_mass', 'mission:reserve_fuel_mass'))
            w = sum(float(np.ravel(v.any(n, units))[0]) for n in (a, b) if v.any(n, units) is not None)
            rec.event('mass table number')
            if abs(float(val) - w) > 0.0103 + 1e-9 * abs(w):
                rec.violation(f'mass report: {label}', f'stated as {val} {units}, the parts sum to {w}', spec=replay)
            continue
        if label not in labels:
            rec.stat('mass table label not known: ' + label)
            continue
        seen[label] = seen.get(label, 0) + 1
        x = v.any(labels[label], None if val == 'Not Found in Model' else units)
        rec.event('mass table number')
        if val == 'Not Found in Model':
            if x is not None:
                rec.violation(f'mass report: {label}', f'{labels[label]} is stated as not found, the problem holds {x}', spec=replay)
        elif x is None or not stated(x, val):
            rec.violation(f'mass report: {label}', f'{labels[label]} is stated as {val} {units}, the problem holds {x}', spec=replay)
    for label, n, optional in MASS:
        if label not in seen and (not optional or v.any(n, None) is not None):
            rec.violation('mass report lacks a row', f'{label} ({n}) is not listed', spec=replay)


def variable_table(rec, v, text, what, replay, engines=None):
    """Tables whose rows are variable names."""
    idx = {e.name: i for i, e in enumerate(engines or [])}
    n_eng = len(engines or [])
    for path, c in table(text):
        if len(c) < 3:
            continue
        n, val, units = c[:3]
        u = v.meta.get(n, {}).get('units')
        if val == 'Not Found in Model':
            if v.any(n, u) is not None:
                rec.violation(f'{what} report: {n}', f'stated as not found, the problem holds {v.any(n, u)}', spec=replay)
            continue
        if units == '-':
            units = 'unitless'
        x = v.any(n, None if units == 'unknown' else units)
        if x is not None and path and path[-1] in idx and np.size(x) == n_eng:
            x = np.ravel(x)[idx[path[-1]]]
        rec.event(f'{what} table number')
        if x is None or not stated(x, val):
            # (unrounded values are as good)
            if x is not None and len(numbers(val)) == np.size(x) and np.allclose([float(t) for t in numbers(val)], np.ravel(x), rtol=1e-7):
                continue
            rec.violation(f'{what} report: {n}', f'{"/".join(path)}: stated as {val} {units}, the problem holds {x}', spec=replay)
        if units != 'unknown' and n in v.meta and units != u:
            rec.stat(f'{what} table in other units than the metadata')


EXPECT = {
    'geometry': ['aircraft:wing:area', 'aircraft:wing:span', 'aircraft:wing:aspect_ratio', 'aircraft:wing:sweep', 'aircraft:horizontal_tail:area',
                 'aircraft:vertical_tail:area', 'aircraft:fuselage:length'],
    'propulsion': ['aircraft:propulsion:total_num_engines', 'aircraft:propulsion:total_scaled_sls_thrust', 'aircraft:engine:num_engines',
                   'aircraft:engine:scaled_sls_thrust', 'aircraft:engine:scale_factor'],
}


def sizing(rec, v, path, replay):
    with open(path) as f:
        rows = json.load(f)
    for name, val, units, _ in rows:
        x = None
        if name in ('mission:gross_mass', 'aircraft:design:gross_mass'):
            x = v.get(name, units)
        if x is None:
            x = v.inputs.get_val(name, units)
        try:
            x = np.array(x, float)
            val = np.array(val, float)
        except (TypeError, ValueError):
            continue
        rec.event('sizing result value')
        if val.size != x.size or not np.allclose(np.ravel(val), np.ravel(x), rtol=1e-9, atol=1e-12, equal_nan=True):
            rec.violation(f'sizing results: {name}', f'{name} is exported as {val} {units}, the problem holds {x}', spec=replay)
    names = [r[0] for r in rows]
    lack = [n for n, _ in v.inputs if n not in names]
    if lack or len(set(names)) != len(names):
        rec.violation('sizing results lack an input', f'{lack[:5]}', spec=replay)


def dashboard(rec, p, d, replay):
    """The variable table of the dashboard, made from a recording of the problem."""
    import openmdao.api as om

    D = importlib.import_module('aviary.visualization.dashboard')
    file = os.path.join(os.getcwd(), 'final_case.db')
    p.add_recorder(om.SqliteRecorder(file))
    p.recording_options['includes'] = ['*']
    p.final_setup()
    p.record('final')
    files = [os.path.join(r, f) for r, _, fs in os.walk(os.getcwd()) for f in fs if f == 'final_case.db']
    out = os.path.join(os.getcwd(), 'dash')
    os.makedirs(os.path.join(out, 'reports', 'aviary_vars'))
    data = D.create_aviary_variables_table_data_nested(out, files[0])
    with open(os.path.join(out, 'reports', 'aviary_vars', D.aviary_variables_json_file_name)) as f:
        data2 = json.load(f)
    flat = []
    for e in data2:
        flat += e.get('_children', [e])
    held = {a: (p.model._resolver.abs2prom(a, 'output'), m.get('units')) for a, m in p.model._var_allprocs_abs2meta['output'].items()}
    seen = set()
    for e in flat:
        a = e['abs_name']
        if a not in held:
            a = next((x for x in held if x.split(':')[0] == a), None)  # (a group of a single variable)
        if a is None:
            rec.violation('dashboard table lists an unknown variable', f'{e["abs_name"]}', spec=replay)
            continue
        seen.add(a)
        if a.startswith('_auto_ivc'):
            continue
        try:
            x = np.ravel(np.array(p.get_val(a), float))
            g = np.array(e['value'], object).ravel()
            g = np.array([INF.get(t, np.nan) if t is None or isinstance(t, str) else t for t in g], float)
        except (TypeError, ValueError):
            rec.stat('dashboard value not numeric')
            continue
        rec.event('dashboard value')
        if g.shape != x.shape or not np.allclose(g, x, rtol=1e-9, atol=1e-12, equal_nan=True) or e['units'] != held[a][1] or e['prom_name'] != held[a][0]:
            rec.violation('dashboard table', f'{a}: the table states {e["prom_name"]} = {str(e["value"])[:60]} {e["units"]}, the problem holds {x[:4]} {held[a][1]}', spec=replay)
    lack = [a for a in held if a not in seen and not a.startswith('_auto_ivc')]
    if lack:
        rec.violation('dashboard table lacks variables', f'{len(lack)} of {len(held)} outputs are not in the table, such as {lack[:3]}', spec=replay)
    return data


def files_of(p):
    d = p.get_reports_dir()
    d.mkdir(parents=True, exist_ok=True)
    return d


def read(path):
    with open(path) as f:
        return f.read()


def report_all(rec, p, multi, rng, replay):
    R = importlib.import_module('aviary.interface.reports')
    d = files_of(p)
    views = {n: View(p, n) for n in p.aviary_groups_dict} if multi else {p._name: View(p)}
    first = next(iter(views.values()))
    made = []
    for f in ('mission_report', 'timeseries_csv', 'input_check_report', 'overridden_variables_report', 'subsystem_report', 'sizing_results'):
        try:
            with vp.quiet():
                getattr(R, f)(p)
            made.append(f)
            rec.event('report made: ' + f)
        except Exception as e:
            rec.violation(f'{f} fails', f'{type(e).__name__}: {str(e)[:200]}', spec=replay)
    if 'mission_report' in made:
        mission_summary(rec, views, read(d / 'mission_summary.md'), replay, multi)
    if 'timeseries_csv' in made:
        timeseries(rec, first, d / 'mission_timeseries_data.csv', replay)
    if 'input_check_report' in made:
        input_checks(rec, p, views, read(d / 'input_checks.md'), replay, multi)
    if 'overridden_variables_report' in made:
        overridden(rec, views, read(d / 'overridden_variables.md'), replay, multi)
    if 'subsystem_report' in made:
        s = d / 'subsystems'
        for b in first.subsystems:
            f = s / f'{b.name}.md'
            if not f.exists():
                continue
            t = read(f)
            kind = type(b).__name__
            rec.seen('subsystem reports', kind)
            if 'Mass' in kind:
                mass_table(rec, first, t, replay)
            elif 'Geometry' in kind or 'Propulsion' in kind:
                what = 'geometry' if 'Geometry' in kind else 'propulsion'
                variable_table(rec, first, t, what, replay, first.engines)
                for n in EXPECT[what]:
                    k = sum(1 for _, c in table(t) if c[0] == n)
                    decks = [e for e in first.engines if type(e).__name__ in ('EngineDeck',)]
                    w = len(decks) if n.startswith('aircraft:engine:') else 1
                    if k != w:
                        rec.violation(f'{what} report lacks {n}', f'{k} rows for {n}, {w} expected', spec=replay)
    if (d / 'sizing_results.json').exists():
        sizing(rec, first, d / 'sizing_results.json', replay)


def worker(rec, item):
    kind, seed = item
    rng = np.random.default_rng(seed)
    home = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='m12_')
    os.chdir(tmp)
    os.environ['OPENMDAO_WORKDIR'] = tmp  # else every process writes to one shared directory
    try:
        if kind == 'multi':
            from checks import m05

            spec, labels = m05.pose_multi(rng)
            eom = 'ES'
        else:
            spec, labels, eom = case(rng, kind)
            over(rng, spec, eom)
        spec['_kind'] = kind
        replay = {k: (v if k != 'external' else [repr(getattr(x, 'decl', x)) for x in v]) for k, v in spec.items()}
        rec.case(ms.diff_key(eom, replay, labels), {'kind': kind, 'labels': labels, 'deck': spec.get('deck')})
        rec.stat('kind ' + kind)
        with vp.quiet(), eval_limit(120):
            try:
                b = vp.build('aviary', spec, 'run')
            except Exception as e:
                rec.skip(f'problem not built: {kind} {type(e).__name__} {str(e)[:600]}')
                return
        p = b.prob
        # values of after the build, as an optimizer would leave them
        if kind != 'multi' and rng.random() < 0.5:
            with vp.quiet(), eval_limit(90):
                shift(rec, p, rng)
        with eval_limit(120):
            report_all(rec, p, kind == 'multi', rng, replay)
            if rng.random() < 0.3:
                try:
                    with vp.quiet():
                        dashboard(rec, p, tmp, replay)
                except ImportError:
                    rec.skip('dashboard not importable')
    finally:
        os.chdir(home)
        os.environ.pop('OPENMDAO_WORKDIR', None)
        shutil.rmtree(tmp, ignore_errors=True)


def shift(rec, p, rng):
    """Move the design variables, as a driver does, and run again."""
    dv = p.model.get_design_vars(recurse=True, use_prom_ivc=True)
    k = 0
    for n, m in dv.items():
        if n.startswith(('aircraft:', 'mission:')) or rng.random() < 0.3:
            x = np.array(p.get_val(m['source']))
            p.set_val(m['source'], x * (1 + 0.03 * rng.uniform(-1, 1)))
            k += 1
    for n in ('aircraft:engine:scale_factor',):
        try:
            x = np.array(p.get_val(n))
        except KeyError:
            continue
        if rng.random() < 0.5:
            p.set_val(n, x * (1 + 0.1 * rng.uniform(-1, 1, x.shape)))
            k += 1
    p.run_model()
    rec.stat('design variables moved', k)


def driven(rec, item):
    """A driver run with the reports made on their own, and the status of the run."""
    seed = item
    rng = np.random.default_rng(seed)
    home = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='m12_')
    os.chdir(tmp)
    os.environ['OPENMDAO_WORKDIR'] = tmp  # else every process writes to one shared directory
    try:
        spec = {'deck': 'asa', 'phase_info': gen.default_mission('ES'), 'values': {}, 'optimizer': 'SLSQP', 'max_iter': int(rng.integers(1, 4))}
        R = importlib.import_module('aviary.interface.reports')
        with vp.quiet(), eval_limit(150):
            b = vp.build('aviary', spec, 'opt')
            p = b.prob
            d = files_of(p)
            R.run_status(p)
        st = json.loads(read(d / 'status.json'))
        r = p.driver.result
        rec.case('driven', {'max_iter': spec['max_iter']})
        want = {'Problem': p._name, 'Optimizer': p.driver._get_name(), 'Number of driver iterations': r.iter_count, 'Number of model evals': r.model_evals,
                'Number of deriv evals': r.deriv_evals, 'Exit status': r.exit_status}
        for k, w in want.items():
            rec.event('run status entry')
            if st.get(k) != w:
                rec.violation(f'run status: {k}', f'stated as {st.get(k)!r}, the run has {w!r}', spec=spec)
        m = re.fullmatch(r'(\d+) hours (\d+) minutes (\d+) seconds ([\d.]+) milliseconds', st['Wall clock run time'])
        t = int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3)) + float(m.group(4)) / 1000
        if abs(t - r.runtime) > 0.001:
            rec.violation('run status: run time', f'{st["Wall clock run time"]} for {r.runtime} s', spec=spec)
        report_all(rec, p, False, rng, spec)
    finally:
        os.chdir(home)
        os.environ.pop('OPENMDAO_WORKDIR', None)
        shutil.rmtree(tmp, ignore_errors=True)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa
    import aviary.interface.reports  # noqa

    chk.rule = ('one case is one problem (mission, aircraft, engine fleet, external subsystems or several missions; half of them with the design variables moved after the '
                'build): every number, name and path of its reports and tables is parsed and compared with the value the problem holds in the units named')
    counts = chk.pick({'2DOF': 6, 'fleet': 14, 'sub': 9, 'multi': 6, 'S2DOF': 4, 'ES': 20}, {'2DOF': 200, 'fleet': 400, 'sub': 250, 'multi': 120, 'S2DOF': 80, 'ES': 700})
    it = []
    for k, n in counts.items():
        for i in range(n):
            it.append((k, [chk.seed, ms.hash_of('M12'), ms.hash_of(k), i]))
    chk.pmap(worker, it, timeout=200)
    chk.pmap(driven, [[chk.seed, 912, i] for i in range(chk.pick(2, 30))], timeout=200)
    for m, n in (('mission summary number', 400), ('timeseries column', 600), ('unspecified input value', 1500), ('overridden value', 100), ('mass table number', 1500),
                 ('mass of an engine type', 100), ('geometry table number', 200), ('propulsion table number', 150), ('sizing result value', 1500), ('dashboard value', 1500),
                 ('run status entry', 6)):
        chk.require(m, n)
