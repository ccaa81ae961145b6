"""Whole missions under random definitions: what one worker observes and judges."""

import numpy as np
from openmdao.utils.units import convert_units

from vlib import diff, gen
from vlib import prob as vp
from vlib.core import eval_limit

SPEC = {'ES': gen.es_spec, '2DOF': gen.td_spec, 'S2DOF': gen.s2_spec}


def phases_of(spec):
    return [p for p in spec['phase_info'] if p not in ('pre_mission', 'post_mission')]


def make_spec(rng, eom, nmut, names=None, **kw):
    spec, labels = SPEC[eom](rng, nmut, names, **kw)
    if rng.random() < 0.15:
        m = str(rng.choice(['TROPICAL', 'POLAR', 'HOT', 'COLD']))
        spec.setdefault('values', {})['settings:atmosphere_model'] = (gen.ref('variable_info.enums', 'AtmosphereModel')[m], 'unitless')
        labels = list(labels) + [m.lower() + ' day']
    return spec, labels


def pair(rec, eom, spec, labels, upto, rng, what, limit=90, **kw):
    rec.case(diff_key(eom, spec, labels), {'deck': spec['deck'], 'labels': labels})
    rec.stat('definitions ' + eom)
    r = diff.run_pair(rec, spec, upto, rng, what=what, limit=limit, **kw)
    if r is not None:
        rec.stat('built ' + eom)
        rec.seen('mission shapes', '+'.join([eom, *map(str, labels[:3])]))
    return r


def diff_key(eom, spec, labels):
    import hashlib
    import json

    from vlib.core import jsonable

    return eom + ':' + hashlib.sha1(json.dumps(jsonable(spec), sort_keys=True).encode()).hexdigest()[:12]


# ----------------------------------------------------------------------------- mission monitors
def ts(prob, phase, var, units=None):
    try:
        return np.ravel(prob.get_val(f'traj.{phase}.timeseries.{var}', units=units))
    except KeyError:
        return None


def near(a, b, rtol=1e-6, atol=1e-6):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def hits(p, name, value, units):
    """Does this driver variable have the value?"""
    try:
        v = np.ravel(p.get_val(name, units=units))
    except Exception:
        return False
    return v.size == 1 and near(v[0], value, 1e-6, 1e-6)


def linked(cons, left, right, var):
    """Is there a constraint tying the end of `left` to the start of `right` in var?"""
    for kind, name in cons:
        n = str(name)
        if kind == 'con' and 'linkages' in n and f'{left}:' in n and f'{right}:' in n and var in n:
            return True
    return False


UNITS = {'time': 's', 'mass': 'lbm', 'distance': 'ft', 'altitude': 'ft', 'mach': 'unitless', 'velocity': 'ft/s',
         'flight_path_angle': 'rad', 'angle_of_attack': 'rad'}


def pinned(uo, var, end):
    v = uo.get(f'{var}_{end}')
    if v is None:
        return False
    return v[0] is not None


def continuity(rec, eom, spec, b, replay, known=None):
    """End of each phase = start of the next, or a constraint says so, or the user fixed both."""
    p = b.prob
    pi = spec['phase_info']
    names = phases_of(spec)
    main = [n for n in names if not pi[n]['user_options'].get('reserve')]
    res = [n for n in names if pi[n]['user_options'].get('reserve')]
    cons = vp.observe_opt(p)
    for chain in (main, res):
        for a, c in zip(chain, chain[1:]):
            ua, uc = pi[a]['user_options'], pi[c]['user_options']
            for var in ('time', 'mass', 'distance', 'altitude', 'mach', 'velocity'):
                x, y = ts(p, a, var, UNITS[var]), ts(p, c, var, UNITS[var])
                if x is None or y is None:
                    continue
                if var in ('altitude', 'mach', 'velocity'):
                    if eom != '2DOF' and var != 'altitude' or eom == 'S2DOF':
                        continue
                    static = ua.get(f'{var}_optimize') is False and uc.get(f'{var}_optimize') is False
                    if eom == 'ES' and (static or ua.get(f'{var}_optimize') is not True and uc.get(f'{var}_optimize') is not True):
                        continue
                    if eom == '2DOF' and not two_dof_state(b, a, c, var):
                        continue
                rec.event('phase boundary continuity')
                if near(x[-1], y[0]) or linked(cons, a, c, var):
                    continue
                if pinned(ua, var, 'final') and pinned(uc, var, 'initial'):
                    rec.stat('boundary fixed on both sides by the definition')
                    continue
                if var == 'time' and uc.get('time_initial', (None,))[0] is not None:
                    continue
                rec.violation(f'{eom}: {var} jumps between consecutive phases',
                              f'{var} ends {a} at {x[-1]!r} and starts {c} at {y[0]!r} {UNITS[var]}, and nothing constrains it', spec=replay)
    if main and res:
        a, c = main[-1], res[0]
        for var in ('mass', 'distance'):
            x, y = ts(p, a, var, UNITS[var]), ts(p, c, var, UNITS[var])
            if x is None or y is None:
                continue
            rec.event('reserve start')
            if not (near(x[-1], y[0]) or linked(cons, a, c, var)):
                rec.violation(f'reserve mission start: {var}',
                              f'{var} ends the regular mission ({a}) at {x[-1]!r} and starts the reserve mission ({c}) at {y[0]!r}; nothing constrains it', spec=replay)


def two_dof_state(b, a, c, var):
    """Is var integrated in both phases?"""
    ph = b.prob.model.traj._phases
    for n in (a, c):
        if var not in ph[n].state_options:
            return False
    return True


def get(p, name, units):
    try:
        return float(np.ravel(p.get_val(name, units=units))[0])
    except KeyError:
        return None


def ledger(rec, eom, spec, b, replay):
    """Reported fuel, reserve, residuals and range are the differences the trajectory shows."""
    p = b.prob
    pi = spec['phase_info']
    names = phases_of(spec)
    main = [n for n in names if not pi[n]['user_options'].get('reserve')]
    res = [n for n in names if pi[n]['user_options'].get('reserve')]
    g = lambda n: get(p, n, 'lbm')
    end = ts(p, main[-1], 'mass', 'lbm')
    if end is None:
        return
    end = end[-1]
    gross = g('mission:gross_mass')

    def vals(key, units):
        v = spec.get('values', {}).get(key) or gen.deck_values(spec['deck']).get(key)
        if v is None:
            return 0.0
        return float(v[0]) if units in (None, 'unitless') else float(convert_units(v[0], v[1], units))

    margin = vals('mission:reserve_fuel_margin', None)
    extra = vals('mission:reserve_fuel_mass_additional', 'lbm')
    res_burn = 0.0
    if res:
        res_burn = ts(p, res[0], 'mass', 'lbm')[0] - ts(p, res[-1], 'mass', 'lbm')[-1]
    fuel = gross - end
    total_res = margin / 100 * fuel + extra + res_burn
    want = {
        'mission:fuel_mass': fuel,
        'mission:final_mass': end,
        'mission:total_reserve_fuel_mass': total_res,
    }
    if res:
        want['mission:reserve_fuel_mass'] = res_burn
    tot = g('mission:total_fuel_mass')
    if tot is not None:
        want['mission:constraints:mass_residual'] = tot - fuel - total_res
        cap, unus = g('aircraft:fuel:max_capacity_mass'), g('aircraft:fuel:unusable_fuel_mass')
        if cap is not None and unus is not None:
            want['mission:constraints:excess_fuel_mass_capacity'] = cap - unus - tot
    taxi = g('mission:taxi:fuel_mass_taxi_in')
    if taxi is not None:
        want['mission:block_fuel_mass'] = fuel + taxi
    for n, w in want.items():
        v = g(n)
        if v is None:
            continue
        rec.event('fuel ledger')
        if not near(v, w, 1e-8, 1e-6 * max(1.0, abs(gross) * 1e-3)):
            rec.violation(f'fuel ledger: {n}', f'{n} is {v!r} lbm, the trajectory and inputs give {w!r} lbm', spec=replay)
    d = ts(p, main[-1], 'distance', 'nmi')
    t = ts(p, main[-1], 'time', 'min')
    for n, w, u in (('mission:range', d, 'nmi'), ('mission:final_time', t, 'min')):
        if w is None:
            continue
        v = get(p, n, u)
        if v is None:
            continue
        rec.event('range and time')
        if not near(v, w[-1], 1e-8, 1e-6):
            rec.violation(f'fuel ledger: {n}', f'{n} is {v!r} {u}, the trajectory ends at {w[-1]!r}', spec=replay)
    tr = pi.get('post_mission', {}).get('target_range')
    if tr is not None and d is not None:
        v = get(p, 'mission:constraints:range_residual', 'nmi')
        w = convert_units(tr[0], tr[1], 'nmi') - d[-1]
        if v is not None:
            rec.event('range and time')
            if not near(v, w, 1e-7, 1e-4):
                rec.violation('range residual', f'range residual is {v!r} nmi, target minus flown is {w!r}', spec=replay)
    # targets of single phases
    opt = vp.observe_opt(p)
    for n in names:
        uo = pi[n]['user_options']
        td = uo.get('time_duration')
        x = ts(p, n, 'time', 'min')
        if td is not None and td[0] is not None and x is not None and getattr(uo.get('phase_type'), 'name', '') == 'BREGUET_RANGE':
            w = convert_units(td[0], td[1], 'min') - (x[-1] - x[0])
            rec.event('phase target')
            c = [m for (kind, q), m in opt.items() if kind == 'con' and m.get('equals') is not None and np.all(np.asarray(m['equals']) == 0) and hits(p, q, w, 'min')]
            if not c:
                rec.violation(f'{eom}: time_duration of an analytic phase is not what is constrained',
                              f'{n}: time_duration {td}, flown {x[-1] - x[0]!r} min: no constraint requires the difference {w!r} to vanish', spec=replay)
    for n in names:
        td = pi[n]['user_options'].get('target_distance')
        if td is None or td[0] is None:
            continue
        x = ts(p, n, 'distance', 'nmi')
        if x is None:
            continue
        w = convert_units(td[0], td[1], 'nmi') - (x[-1] - x[0])
        rec.event('phase target')
        ok = False
        for (kind, name), m in opt.items():
            if kind != 'con' or m.get('equals') is None:
                continue
            try:
                v = np.ravel(p.get_val(name, units='nmi'))
            except Exception:
                continue
            if v.size == 1 and near(v[0], w, 1e-6, 1e-6) and np.all(np.asarray(m['equals']) == 0):
                ok = True
        if not ok:
            rec.violation(f'{eom}: target_distance of a phase is not what is constrained',
                          f'{n}: target_distance {td}, flown {x[-1] - x[0]!r} nmi: no constraint requires the difference {w!r} to vanish', spec=replay)


def m04_worker(rec, item):
    eom, seed, nmut = item
    rng = np.random.default_rng(seed)
    kw = {'names': lambda o: 'link' in o or o in ('target_distance', 'time_duration', 'time_initial', 'reserve') or o.endswith(('_initial', '_final', '_optimize'))}
    spec, labels = make_spec(rng, eom, nmut, **kw)
    r = pair(rec, eom, spec, labels, 'run', rng, f'mission {eom}')
    if r is None:
        return
    c = r[1].b
    with vp.quiet(), eval_limit(60):
        continuity(rec, eom, spec, c, spec)
        ledger(rec, eom, spec, c, spec)


def items(chk, tag, counts, nmut):
    out = []
    for eom, n in counts.items():
        for i in range(n):
            out.append((eom, [chk.seed, hash_of(tag), hash_of(eom), i], nmut))
    # long ones first
    order = {'2DOF': 0, 'ES': 1, 'S2DOF': 2}
    out.sort(key=lambda x: order[x[0]])
    return out


def hash_of(s):
    import zlib

    return zlib.crc32(str(s).encode())


# ----------------------------------------------------------------------------- option monitor
def units_of(p, name):
    m = p.model
    try:
        src = m.get_source(name)
    except Exception:
        return None
    meta = m._var_allprocs_abs2meta['output'].get(src)
    if src.startswith('_auto_ivc.'):
        # the units of what it feeds
        gm = m._group_inputs.get(name) if hasattr(m, '_group_inputs') else None
        if gm and gm[0].get('units'):
            return gm[0]['units']
    return meta.get('units') if meta else None


def conv(v, a, b):
    if v is None:
        return None
    if a in (None, 'unitless') or b in (None, 'unitless') or a == b:
        return float(v)
    return float(convert_units(v, a, b))


def bound_ok(got, want):
    got = np.asarray(-1e30 if got is None else got, float)
    if want is None:
        return bool(np.all(np.abs(got) > 1e25))
    return near(got, want, 1e-9, 1e-9)


def option_monitor(rec, eom, spec, b, replay):
    """States, controls, times and user constraints of every phase as its options say."""
    p = b.prob
    opt = vp.observe_opt(p)
    traj = p.model.traj
    for n in phases_of(spec):
        uo = spec['phase_info'][n]['user_options']
        ph = traj._phases[n]
        if type(ph).__name__ == 'AnalyticPhase':
            continue

        def complain(what, msg):
            rec.violation(f'{eom} option: {what}', f'phase {n}: {msg}', spec=replay)

        # bounds of states and controls
        for kind, names in (('states', list(ph.state_options)), ('controls', list(ph.control_options))):
            for s in names:
                bd = uo.get(f'{s}_bounds')
                dv = opt.get(('dv', f'traj.{n}.{kind}:{s}'))
                if kind == 'controls':
                    o = uo.get(f'{s}_optimize')
                    if o is None:
                        continue
                    rec.event('option monitor')
                    if bool(o) != (dv is not None):
                        complain('optimize flag of a control', f'{s}_optimize is {o}, but the optimizer ' + ('varies it' if dv is not None else 'does not vary it'))
                        continue
                if dv is None or bd is None:
                    continue
                u = units_of(p, f'traj.{n}.{kind}:{s}')
                lo, hi = (conv(x, bd[1], u) for x in bd[0])
                rec.event('option monitor')
                if not (bound_ok(dv['lower'], lo) and bound_ok(dv['upper'], hi)):
                    complain(f'bounds of {kind}', f'{s}_bounds {bd} should be {lo} to {hi} {u}, are {np.min(dv["lower"])} to {np.max(dv["upper"])}')
                fin = uo.get(f'{s}_final')
                if fin is not None and fin[0] is not None and (kind == 'states' or uo.get(f'{s}_optimize')):
                    found = [m for (k, nm), m in opt.items() if k == 'con' and str(nm).startswith(f'traj.{n}.') and m.get('equals') is not None
                             and (s + '[final]' in str(nm) or s + '_final' in str(nm))]
                    rec.event('option monitor')
                    cu = bd[1]
                    want = conv(fin[0], fin[1], cu)
                    if not any(near(m['equals'], conv(fin[0], fin[1], m['units'] or cu), 1e-7, 1e-9) for m in found):
                        complain('final value', f'{s}_final {fin} ({want} {cu}) is not required at the end: {[m["equals"] for m in found]}')
        # times
        tv = uo.get('time_duration')
        tb = uo.get('time_duration_bounds')
        dv = opt.get(('dv', f'traj.{n}.t_duration'))
        tname = ph.time_options['name']
        if tname == 'time' and eom == 'ES':
            if tv is not None and tv[0] is not None:
                rec.event('option monitor')
                if dv is not None:
                    complain('time_duration', f'time_duration {tv} is given but the optimizer varies the duration')
            elif tb is not None and dv is not None:
                u = units_of(p, f'traj.{n}.t_duration') or 's'
                lo, hi = (conv(x, tb[1], 's') for x in tb[0])
                rec.event('option monitor')
                if not (bound_ok(dv['lower'], lo) and bound_ok(dv['upper'], hi)):
                    complain('time_duration_bounds', f'{tb} should be {lo} to {hi} s, are {dv["lower"]} to {dv["upper"]} ({u})')
            ti = uo.get('time_initial')
            di = opt.get(('dv', f'traj.{n}.t_initial'))
            if ti is not None and ti[0] is not None:
                rec.event('option monitor')
                if di is not None:
                    complain('time_initial', f'time_initial {ti} is given but the optimizer varies it')
        # user constraints
        for name, c in (uo.get('constraints') or {}).items():
            short = name.rsplit(':', 1)[-1]
            tag = '[path]' if c['type'] == 'path' else f'[{c.get("loc")}]'
            found = [m for (k, nm), m in opt.items() if k == 'con' and str(nm).startswith(f'traj.{n}.') and short in str(nm)
                     and (tag in str(nm))]
            rec.event('option monitor')
            ok = any(all(c.get(q) is None or (m[q] is not None and near(m[q], c[q], 1e-9, 1e-12)) for q in ('lower', 'upper', 'equals'))
                     and m['units'] == c['units'] and (c.get('ref') is None or near(m['ref'], c['ref'], 1e-9, 1e-12)) for m in found)
            if not ok:
                complain('user constraint', f'constraint {name} {c} is not among {found}')


def m06_worker(rec, item):
    eom, seed, nmut = item
    rng = np.random.default_rng(seed)
    spec, labels = make_spec(rng, eom, nmut)
    r = pair(rec, eom, spec, labels, 'guess', rng, f'options {eom}')
    if r is not None:
        with vp.quiet(), eval_limit(60):
            option_monitor(rec, eom, spec, r[1].b, spec)
