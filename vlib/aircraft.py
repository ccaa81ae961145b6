"""Aircraft without a mission: random pre-mission problems, mass ledger and overrides."""

import re

import numpy as np

from vlib import gen
from vlib import prob as vp

ALL = ['asa', 'lsa1', 'lsa2', 'lsa2alt', 'lsa2det', 'min', 'bwbs', 'bwbd', 'bwb300', 'lsag', 'ssag', 'bwbg', 'FwFm', 'GwFm', 'FwGm', 'GwGm',
       'highwing', 'confG', 'root1', 'FwFmE']
GASP_LIKE = {'lsag', 'ssag', 'bwbg', 'GwFm', 'GwGm', 'confG'}


def phase_info_for(deck):
    e = gen.deck_values(deck).get('settings:equations_of_motion')
    n = getattr(e[0], 'name', '') if e else 'ENERGY_STATE'
    return gen.default_mission('2DOF' if n == 'TWO_DEGREES_OF_FREEDOM' else 'ES')


_OUT = {}


def outputs_of(deck):
    """{name: (value, units)} of what the core subsystems of the release compute for the deck before the mission."""
    if deck not in _OUT:
        try:
            with vp.quiet():
                b = vp.build('aviary_ref', {'deck': deck, 'phase_info': phase_info_for(deck)}, 'premission')
                obs = vp.observe(b.prob, inputs=False)
                res = b.prob.model._resolver
                core = {res.abs2prom(a, 'output') for a in b.prob.model._var_allprocs_abs2meta['output'] if a.startswith('pre_mission.core_subsystems.')}
                obs = {k: v for k, v in obs.items() if k in core}
        except Exception:
            obs = {}
        _OUT[deck] = {k: v for k, v in obs.items() if re.match(r'^(aircraft|mission):', k) and np.all(np.isfinite(v[0]))}
    return _OUT[deck]


OPT_NAMES = None


def option_names():
    """Boolean, integer and enumeration options of the hierarchy."""
    global OPT_NAMES
    if OPT_NAMES is None:
        from enum import Enum

        md = gen.ref('variable_info.variable_meta_data', '_MetaData')
        OPT_NAMES = []
        for k, m in md.items():
            if not m.get('option') or not k.startswith(('aircraft:design', 'aircraft:wing', 'aircraft:fuselage', 'aircraft:horizontal', 'aircraft:vertical',
                                                        'aircraft:furnish', 'aircraft:electrical', 'aircraft:landing', 'aircraft:strut',
                                                        'aircraft:air', 'aircraft:apu', 'aircraft:hydraulic')):
                continue
            t = m.get('types')
            t = t if isinstance(t, tuple) else (t,)
            d = m.get('default_value')
            if bool in t or isinstance(d, bool):
                OPT_NAMES.append((k, 'bool', None))
            elif any(isinstance(q, type) and issubclass(q, Enum) for q in t if isinstance(q, type)):
                q = [q for q in t if isinstance(q, type) and issubclass(q, Enum)][0]
                OPT_NAMES.append((k, 'enum', q))
            elif int in t and k.split(':')[-1] not in ('type',):
                OPT_NAMES.append((k, 'int', None))
        OPT_NAMES.sort(key=lambda x: x[0])
    return OPT_NAMES


def vary_options(rng, deck, n):
    out = {}
    names = option_names()
    dv = gen.deck_values(deck)
    for i in rng.choice(len(names), size=min(n, len(names)), replace=False):
        k, kind, q = names[int(i)]
        if k == 'aircraft:design:type':
            continue
        if kind == 'bool':
            out[k] = (not bool(dv[k][0]) if k in dv and np.ndim(dv[k][0]) == 0 else bool(rng.random() < 0.5), 'unitless')
        elif kind == 'enum':
            mem = list(q)
            out[k] = (mem[int(rng.integers(len(mem)))], 'unitless')
        else:
            b = dv.get(k, (1,))[0]
            if np.ndim(b) or isinstance(b, str):
                continue
            out[k] = (int(max(0, int(b) + int(rng.choice([-1, 0, 1])))), 'unitless')
    return out


MASSLIKE = re.compile(r'mass')


def spec_for(rng, deck=None, perturb=4, options=1, overrides=2, only=None, names=None):
    deck = deck or str(rng.choice(ALL))
    vals = gen.perturb_deck(rng, deck, perturb, amount=0.1)
    labels = [deck]
    if options:
        o = vary_options(rng, deck, options)
        vals.update(o)
        labels += [f'{k.split(":", 1)[1]}={getattr(v[0], "name", v[0])}' for k, v in o.items()]
    given = {}
    if overrides:
        out = outputs_of(deck)
        cand = names or [k for k, (v, u) in out.items() if (only is None or only.search(k)) and np.asarray(v).dtype.kind == 'f']
        if cand:
            for k in rng.choice(cand, size=min(overrides, len(cand)), replace=False):
                k = str(k)
                v, u = out[k]
                v = np.ravel(np.asarray(v, float)) * np.round(rng.uniform(0.88, 1.15), 4)
                if not np.any(v):
                    v = v + np.round(rng.uniform(1, 50), 2) if MASSLIKE.search(k) else v
                val = float(v[0]) if v.size == 1 else v
                val, un = gen.reunit(rng, val if v.size == 1 else v.tolist(), u)
                val = np.array(val) if v.size > 1 else val
                given[k] = (val, un)
        labels += [f'given {k.split(":", 1)[1]}' for k in given]
    items = list({**vals, **given}.items())
    rng.shuffle(items)
    return {'deck': deck, 'phase_info': phase_info_for(deck), 'values': dict(items)}, labels, given


# ----------------------------------------------------------------------------- mass ledger
A = 'aircraft:'
FLOPS_LEDGER = {
    'aircraft:design:empennage_mass': {'aircraft:canard:mass': 1, 'aircraft:fins:mass': 1, 'aircraft:horizontal_tail:mass': 1, 'aircraft:vertical_tail:mass': 1},
    'aircraft:design:structure_mass': {'aircraft:wing:mass': 1, 'aircraft:design:empennage_mass': 1, 'aircraft:fuselage:mass': 1,
                                       'aircraft:landing_gear:total_mass': 1, 'aircraft:nacelle:mass': 'engines', 'aircraft:paint:mass': 1},
    'aircraft:landing_gear:total_mass': {'aircraft:landing_gear:main_gear_mass': 1, 'aircraft:landing_gear:nose_gear_mass': 1},
    'aircraft:propulsion:mass': {'aircraft:fuel:fuel_system_mass': 1, 'aircraft:propulsion:total_misc_mass': 1, 'aircraft:propulsion:total_engine_mass': 1,
                                 'aircraft:propulsion:total_thrust_reversers_mass': 1, 'aircraft:battery:mass': 1},
    'aircraft:propulsion:total_engine_mass': {'aircraft:engine:mass': 'engines'},
    'aircraft:crew_and_payload:total_payload_mass': {'aircraft:crew_and_payload:passenger_payload_mass': 1, 'aircraft:crew_and_payload:cargo_mass': 1},
    'mission:operating_items_mass': {'aircraft:crew_and_payload:cabin_crew_mass': 1, 'aircraft:crew_and_payload:flight_crew_mass': 1,
                                     'aircraft:fuel:unusable_fuel_mass': 1, 'aircraft:propulsion:total_engine_oil_mass': 1,
                                     'aircraft:crew_and_payload:passenger_service_mass': 1, 'aircraft:crew_and_payload:cargo_container_mass': 1,
                                     'mission:operating_items_mass_additional': 1},
    'aircraft:design:systems_and_equipment_mass': {f'aircraft:{n}:mass': 1 for n in (
        'apu', 'instruments', 'hydraulics', 'electrical', 'avionics', 'furnishings', 'air_conditioning', 'anti_icing')} | {
        'aircraft:wing:surface_control_mass': 1},
    'aircraft:design:empty_mass': {'aircraft:design:structure_mass': 1, 'aircraft:propulsion:mass': 1, 'aircraft:design:systems_and_equipment_mass': 1,
                                   'aircraft:design:empty_mass_margin': 1, 'aircraft:design:external_subsystems_mass': 1},
}
COMMON_LEDGER = {
    'mission:operating_mass': {'aircraft:design:empty_mass': 1, 'mission:operating_items_mass': 1},
    'mission:zero_fuel_mass': {'mission:operating_mass': 1, 'aircraft:crew_and_payload:total_payload_mass': 1},
    'aircraft:design:useful_load_mass': {'aircraft:design:gross_mass': 1, 'aircraft:design:empty_mass': -1},
}
GASP_LEDGER = {
    'aircraft:design:empennage_mass': {'aircraft:horizontal_tail:mass': 1, 'aircraft:vertical_tail:mass': 1},
    'aircraft:design:structure_mass': {'aircraft:wing:mass': 1, 'aircraft:design:empennage_mass': 1, 'aircraft:fuselage:mass': 1,
                                       'aircraft:landing_gear:total_mass': 1, 'aircraft:propulsion:total_engine_pod_mass': 1,
                                       'aircraft:design:structural_mass_increment': 1},
    'aircraft:design:systems_and_equipment_mass': {f'aircraft:{n}:mass': 1 for n in (
        'apu', 'instruments', 'hydraulics', 'electrical', 'avionics', 'furnishings', 'air_conditioning', 'anti_icing', 'controls', 'oxygen_system')},
    'aircraft:design:empty_mass': {'aircraft:design:structure_mass': 1, 'aircraft:propulsion:mass': 1, 'aircraft:design:systems_and_equipment_mass': 1,
                                   'aircraft:design:external_subsystems_mass': 1},
    'mission:operating_items_mass': {**FLOPS_LEDGER['mission:operating_items_mass'], 'aircraft:design:emergency_equipment_mass': 1},
    'aircraft:crew_and_payload:total_payload_mass': FLOPS_LEDGER['aircraft:crew_and_payload:total_payload_mass'],
}


def ledger_of(p):
    av = p.model.aviary_inputs
    m = av.get_val('settings:mass_method')
    if m.name == 'GASP':
        return {**GASP_LEDGER, **COMMON_LEDGER}
    led = {**FLOPS_LEDGER, **COMMON_LEDGER}
    if 'aircraft:design:use_alt_mass' in av and av.get_val('aircraft:design:use_alt_mass'):
        led = dict(led)
        led.pop('aircraft:design:systems_and_equipment_mass')
    return led


def flavor(p):
    av = p.model.aviary_inputs
    return '/alt' if 'aircraft:design:use_alt_mass' in av and av.get_val('aircraft:design:use_alt_mass') else ''


def mass_ledger(rec, p, spec, replay, label=''):
    """Every total that is computed is the sum of what it is made of, whatever its parts were given or computed."""
    av = p.model.aviary_inputs
    values = spec.get('values', {})
    given = {k for k in values} | set(gen.deck_values(spec['deck']))
    num = np.ravel(av.get_val('aircraft:engine:num_engines'))

    over = {}
    for a in p.model._var_allprocs_abs2meta['output']:
        q = p.model._resolver.abs2prom(a, 'output')
        if 'AIRCRAFT_DATA_OVERRIDE:' in q:
            over['AIRCRAFT_DATA_OVERRIDE:' + q.split('AIRCRAFT_DATA_OVERRIDE:')[1]] = a

    def get(n):
        n = over.get(n, n)
        try:
            return np.ravel(p.get_val(n, units='lbm'))
        except Exception:
            if n in av:
                return np.ravel(np.asarray(av.get_val(n, units='lbm'), float))
            return None

    for total, parts in ledger_of(p).items():
        if total in given:
            continue
        t = get(total)
        if t is None:
            continue
        w, ok = 0.0, True
        for n, c in parts.items():
            v = get(n)
            if v is None:
                if n in ('aircraft:canard:mass', 'aircraft:fins:mass', 'aircraft:paint:mass', 'aircraft:battery:mass'):
                    continue
                ok = False
                break
            w += float(np.dot(v, num)) if c == 'engines' and v.size == num.size else float(np.sum(v * (1 if c == 'engines' else c)))
        if not ok:
            rec.skip('part not reported: ' + total)
            continue
        rec.event('mass ledger')
        if not abs(t[0] - w) <= 1e-6 + 1e-9 * max(abs(t[0]), abs(w)):
            mech = f'{label}masses do not add up: {total}'
            for n, c in parts.items():
                # does the total use what the model computes instead of what was given?
                o = get('AIRCRAFT_DATA_OVERRIDE:' + n) if n in given else None
                if o is None:
                    continue
                v = get(n)
                d = float(np.dot(o - v, num)) if c == 'engines' and v.size == num.size else float(np.sum((o - v) * (1 if c == 'engines' else c)))
                if abs(t[0] - w - d) <= 1e-6 + 1e-9 * max(abs(t[0]), abs(w)):
                    mech = f'{total} ignores the given {n}'
            if '/alt' in flavor(p) and 'systems_and_equipment' in mech:
                mech += ' (alternate mass equations)'
            rec.violation(mech, f'{total} is {t[0]!r} lbm, its parts sum to {w!r} lbm', spec=replay)
