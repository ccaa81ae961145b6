"""External subsystems are honoured exactly as they declare themselves."""
import copy

import numpy as np
from openmdao.utils.units import convert_units

from checks.m11 import nodes_of
from vlib import diff, extsub, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import eval_limit

EXT_MASS = 'aircraft:design:external_subsystems_mass'


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.ravel(np.asarray(a, float)), np.ravel(np.asarray(b, float))
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def cv(v, a, b):
    return np.asarray(v, float) if a in (None, 'unitless') or b in (None, 'unitless') or a == b else convert_units(np.asarray(v, float), a, b)


def kg(x):
    return cv(x[0], x[1], 'kg') if isinstance(x, tuple) else x


def case(rng, eom):
    spec, labels = ms.make_spec(rng, eom, int(rng.integers(0, 2)))
    pi = spec['phase_info']
    ph = ms.phases_of(spec)
    analytic = [n for n in ph if getattr(pi[n]['user_options'].get('phase_type'), 'name', '') in ('BREGUET_RANGE', 'SIMPLE_CRUISE')]
    n = int(rng.choice([1, 2, 3], p=[0.45, 0.35, 0.2]))
    massless = rng.random() < 0.4
    names = [str(x) for x in rng.permutation(['ext_a', 'ext_b', 'zz_pack', 'b_cell', 'tank'])[:n]]
    decls = [extsub.declare(rng, nm, eom, ph, analytic, massless=massless) for nm in names]
    outs = set()
    for d in decls:
        if d.get('core_out'):
            if d['core_out'] in outs:
                # two subsystems cannot compute the same variable
                d['pre']['outputs'] = [o for o in d['pre']['outputs'] if o['name'] != d['core_out']]
                d['core_out'] = None
            outs.add(d.get('core_out'))
    for i, p in enumerate(ph):
        so = pi[p].setdefault('subsystem_options', {})
        if 'mass_ref' in gen.declared_options(eom, pi[p]['user_options'], pi[p]['user_options'].get('phase_type')):
            pi[p]['user_options'].setdefault('mass_ref', (1.0e5 + 100.0 * i, 'lbm'))
        for d in decls:
            so[d['name']] = {'on': p in d['on'] or not d['per_phase'], 'phase': p, 'gain': float(np.round(rng.uniform(0.5, 2), 3))}
            if rng.random() < 0.1 and not d['per_phase']:
                so.pop(d['name'])
    if 'pre_mission' in pi:
        for d in decls:
            if rng.random() < 0.7:
                pi['pre_mission'].setdefault('subsystem_options', {})[d['name']] = {'gain': float(np.round(rng.uniform(0.5, 1.5), 3)), 'phase': 'pre'}
    spec['external'] = [extsub.Factory(d) for d in decls]
    return spec, labels, decls, massless


def replay_of(spec, decls):
    r = {k: v for k, v in spec.items() if k != 'external'}
    r['declarations'] = decls
    return r


def pre_gain(spec, name):
    return spec['phase_info'].get('pre_mission', {}).get('subsystem_options', {}).get(name, {}).get('gain', 1.0)


def phase_gain(spec, phase, name):
    return spec['phase_info'][phase].get('subsystem_options', {}).get(name, {}).get('gain', 1.0)


def ts(p, phase, var, units):
    try:
        return np.ravel(p.get_val(f'traj.{phase}.timeseries.{var}', units=units))
    except KeyError:
        return None


def calls(rec, spec, decls, facs, replay):
    """Every call of a builder was made with the options of the phase it is about."""
    pi = spec['phase_info']
    for d, ext in zip(decls, [f.built for f in facs]):
        for what, so, ref, _ in ext.decl_log:
            rec.event('builder call')
            where = so.get('phase')
            static = what in ('pre', 'post')
            if where is None:
                continue
            if static != (where == 'pre'):
                rec.violation(f'options passed to {what}', f'{d["name"]}.{what} received the options {so}', spec=replay)
                continue
            if static:
                continue
            want = pi[where]['subsystem_options'][d['name']]
            if so != want:
                rec.violation(f'options passed to {what}', f'{d["name"]}.{what} received {so} in phase {where}, given were {want}', spec=replay)
            mr = pi[where]['user_options'].get('mass_ref')
            if ref is not None and mr is not None:
                rec.event('options of the phase')
                if not close(kg(ref), kg(mr), 1e-9):
                    rec.violation(f'user options passed to {what}', f'{d["name"]}.{what} in phase {where} received user options of another phase (mass_ref {ref}, not {mr})', spec=replay)
        names = {c[0] for c in ext.decl_log}
        missing = {'pre', 'states', 'parameters', 'constraints', 'linked', 'timeseries', 'guesses', 'mission', 'post'} - names
        if len(ms.phases_of(spec)) == 1:
            missing -= {'linked'}
        if missing:
            rec.violation('a declaration is not asked for', f'{d["name"]}: {sorted(missing)} never called', spec=replay)


def pre_monitor(rec, spec, decls, p, replay):
    total, any_mass = 0.0, False
    for d in decls:
        if not d.get('pre'):
            continue
        vals = {n: p.get_val(n, units=u) for n, u, _ in d['pre']['inputs']}
        over = spec.get('values', {})
        for o in d['pre']['outputs']:
            want = extsub.formula(o, vals, pre_gain(spec, d['name']))
            nm = o['name'] if ':' in o['name'] else f'pre_mission.{d["name"]}.{o["name"]}'
            got = p.get_val(nm, units=o['units'])
            rec.event('pre-mission value')
            if not close(got, want, 1e-8):
                rec.violation('pre-mission output ' + ('of a core variable' if o['name'] == d.get('core_out') else 'reported'),
                              f'{d["name"]} computes {o["name"]} = {want} {o["units"]}, the problem holds {got}', spec=replay)
        for n, v, u in d['presets']:
            if n in d['design_vars'] or True:
                got = p.get_val(n, units=u)
                rec.event('value brought along')
                if not close(got, v, 1e-9):
                    rec.violation('value set by preprocess_inputs', f'{n} is {got} {u}, was set to {v}', spec=replay)
        for n in d['masses']:
            any_mass = True
            total += float(np.ravel(p.get_val(n, units='kg'))[0])
    if any_mass:
        rec.event('mass sum')
        got = p.get_val(EXT_MASS, units='kg')
        if not close(got, [total], 1e-8):
            rec.violation('sum of external masses', f'{EXT_MASS} is {got} kg, the declared masses sum to {total}', spec=replay)


def mission_monitor(rec, spec, decls, p, replay):
    model = p.model
    found = {}
    for s in model.system_iter(recurse=True, typ=extsub.MissionComp):
        parts = s.pathname.split('.')
        ph = next((parts[i + 1] for i, x in enumerate(parts) if x == 'phases'), None)
        found.setdefault((parts[-1], ph), []).append(s)
    for d in decls:
        if not d.get('mission'):
            continue
        for ph in ms.phases_of(spec):
            here = found.pop((d['name'], ph), [])
            want = (ph in d['on']) if d['per_phase'] else True
            rec.event('phase membership')
            if bool(here) != want:
                rec.violation('mission model in the wrong phases', f'{d["name"]}: {len(here)} mission models in {ph}, {"one" if want else "none"} declared', spec=replay)
                continue
            for s in here:
                if s.name == d['name'] and s.options['gain'] != phase_gain(spec, ph, d['name']):
                    rec.violation('mission model options', f'{s.pathname} built with gain {s.options["gain"]}, given {phase_gain(spec, ph, d["name"])}', spec=replay)
                inside = any('solver' in x for x in s.pathname.split('.'))
                if 'rhs' in s.pathname and model._get_subsystem(s.pathname.rpartition('.rhs')[0]) is not None and d['solver'] is False and inside and eom_of(spec) == 'ES':
                    rec.violation('placed in the solver loop', f'{s.pathname}: the subsystem does not need the solver', spec=replay)
                for i in d['mission']['inputs']:
                    got = np.ravel(p.get_val(f'{s.pathname}.{i["name"]}', units=i['units']))
                    n = i['name']
                    if i['kind'] == 'node':
                        want_v = ts(p, ph, n, i['units'])
                        if want_v is None or want_v.size != got.size:
                            rec.skip('no series at the nodes of the model')
                            continue
                        kind = 'series'
                    elif n == 'own_constant':
                        want_v, kind = i['val'], 'own constant'
                    elif n.endswith('_xx'):
                        bus = d['pre_bus'][f'{d["name"]}.vec']
                        src = np.ravel(p.get_val(f'pre_mission.{d["name"]}.vec', units=i['units']))
                        want_v = src if bus.get('src_indices') is None else src[bus['src_indices']]
                        kind = 'bus'
                    else:
                        want_v = p.get_val(n, units=i['units'])
                        kind = 'parameter'
                        pd = d['parameters'][n]
                        if 'val' in pd and not close(want_v, cv(pd['val'], pd['units'], i['units'])):
                            rec.violation('declared parameter value', f'{n} is {want_v} {i["units"]}, declared {pd}', spec=replay)
                    rec.event('mission input: ' + kind)
                    if not close(np.broadcast_to(np.ravel(want_v), got.shape) if kind != 'bus' else want_v, got, 1e-8):
                        rec.violation(f'mission input not connected to its {kind}', f'{s.pathname}.{n} is {got[:4]} {i["units"]}, its {kind} holds {np.ravel(want_v)[:4]}', spec=replay)
                for o in d['mission']['outputs']:
                    if o['name'] in d['timeseries']:
                        got = ts(p, ph, o['name'], o['units'])
                        have = np.ravel(p.get_val(f'{s.pathname}.{o["name"]}', units=o['units']))
                        rec.event('declared series')
                        if got is None or got.size == have.size and not close(got, have, 1e-8):
                            rec.violation('declared timeseries output', f'{ph}: {o["name"]} is {got}, the model computes {have[:4]}', spec=replay)
    for k in found:
        rec.violation('unexpected mission model', f'{k} is in the model', spec=replay)
    for d in decls:
        for ph in ms.phases_of(spec):
            if d['per_phase'] and ph not in d['on']:
                for n in d['timeseries'] + list(d['states']) + list(d['controls']):
                    if ts(p, ph, n, None) is not None and n not in d['post_bus'].get(ph, {}):
                        rec.violation('declared for other phases', f'{ph} has a series of {n}', spec=replay)


def eom_of(spec):
    return spec['_eom']


def post_monitor(rec, spec, decls, p, replay):
    for d in decls:
        if not d.get('post'):
            continue
        tot = 0.0
        for i in d['post']['inputs']:
            full = f'post_mission.{d["name"]}.{i["name"]}'
            got = np.ravel(p.get_val(full, units=i['units']))
            tot += np.sum(got)
            if i.get('src'):
                src = np.ravel(p.get_val(f'pre_mission.{i["src"][0]}', units=i['units']))
                want = src if i['src'][1] is None else src[i['src'][1]]
                kind = 'pre-mission value'
            elif i.get('from'):
                ph, var, which = i['from']
                src = np.ravel(p.get_val(f'traj.{ph}.mission_bus_variables.{var}', units=i['units']))
                want = src[-1:] if which is True else src[:1] if which == 'first' else src
                kind = 'mission value'
                s2 = ts(p, ph, var, i['units'])
                if s2 is not None and (not close(src[0], s2[0], 1e-5, 1e-6) or not close(src[-1], s2[-1], 1e-5, 1e-6)):
                    rec.violation('mission bus variable', f'{ph}: bus {var} runs from {src[0]} to {src[-1]}, the timeseries from {s2[0]} to {s2[-1]} {i["units"]}', spec=replay)
            else:
                want = np.ravel(p.get_val(i['name'], units=i['units']))
                kind = 'mission variable'
            rec.event('post-mission input: ' + kind)
            if not close(got, want, 1e-8):
                rec.violation(f'post-mission input not connected to its {kind}', f'{full} is {got[:4]}, its source holds {want[:4]} {i["units"]}', spec=replay)
        got = p.get_val(f'{d["name"]}.{d["post"]["output"]}') if False else p.get_val(f'post_mission.{d["name"]}.{d["post"]["output"]}')
        if not close(got, [tot * pre_gain(spec, d['name'])], 1e-8):
            rec.violation('post-mission output', f'{d["name"]}: {got}, expected {tot * pre_gain(spec, d["name"])}', spec=replay)


def bounds(rec, got, decl, name, what, replay, units=None):
    """Declared bounds as the driver has them (in the units of the source variable)."""
    for k in ('lower', 'upper', 'equals', 'ref'):
        v = decl.get(k)
        g = got.get(k)
        if v is None:
            if g is not None and np.all(np.abs(np.ravel(g)) < 1e29) and k in ('lower', 'upper', 'equals') and what != 'control':
                rec.violation(f'{what} {k} not declared', f'{name}: {k} is {g}, nothing was declared', spec=replay)
            continue
        rec.event('declared bound')
        if g is None or not close(np.unique(np.ravel(np.round(np.asarray(g, float), 9))), [round(float(v), 9)], 1e-7):
            rec.violation(f'{what} {k}', f'{name}: {k} is {g}, declared {v} {units or ""}', spec=replay)


def driver_monitor(rec, spec, decls, p, replay):
    obs = vp.observe_opt(p)
    keys = {str(k[1]): (k, m) for k, m in obs.items()}
    phases = ms.phases_of(spec)
    for d in decls:
        nm = d['name']
        for n, dv in d['design_vars'].items():
            got = obs.get(('dv', n))
            rec.event('design variable')
            if got is None:
                rec.violation('declared design variable missing', f'{n} is not a design variable', spec=replay)
            elif got.get('units') != dv['units']:
                rec.violation('declared design variable units', f'{n}: {got.get("units")}, declared {dv}', spec=replay)
            else:
                bounds(rec, got, dv, n, 'design variable', replay, dv['units'])
        for n, pd in d['parameters'].items():
            hit = [k for k in obs if k[0] == 'dv' and str(k[1]) in (n, f'traj.parameters:{n}')]
            rec.event('parameter in the driver')
            if bool(hit) != bool(pd.get('opt') or n in d['design_vars']) and not n.startswith('aircraft:wing'):
                rec.violation('parameter freed' if hit else 'parameter not freed', f'{n}: {hit}, declared {pd}', spec=replay)
            elif hit and pd.get('opt'):
                bounds(rec, obs[hit[0]], {k: pd[k] for k in ('lower', 'upper')}, n, 'parameter', replay)
        for ph in phases:
            on = ph in d['on'] or not d['per_phase']
            for s, st in d['states'].items():
                cols = [k for k in obs if k[0] == 'con' and str(k[1]).startswith(f'traj.{ph}.') and str(k[1]).endswith(f'defects:{s}')]
                so = p.model.traj._phases[ph].state_options
                rec.event('state')
                if (s in so) != on:
                    rec.violation('state in the wrong phases', f'{ph}: {s} {"missing" if on else "present"}', spec=replay)
                    continue
                if not on:
                    continue
                if so[s]['units'] != st['units'] or so[s]['rate_source'] != st['rate_source']:
                    rec.violation('state options', f'{ph}: {s} has units {so[s]["units"]}, rate {so[s]["rate_source"]}; declared {st}', spec=replay)
                dv = obs.get(('dv', f'traj.{ph}.states:{s}'))
                if dv is not None:
                    bounds(rec, dv, {k: st.get(k) for k in ('lower', 'upper', 'ref')}, f'{ph}: {s}', 'state', replay, st['units'])
                elif not cols and not solved(p, ph):
                    rec.violation('state not free', f'{ph}: {s} is neither a design variable nor solved', spec=replay)
            for c, co in d['controls'].items():
                o = p.model.traj._phases[ph].control_options
                rec.event('control')
                if (c in o) != on:
                    rec.violation('control in the wrong phases', f'{ph}: {c} {"missing" if on else "present"}', spec=replay)
                    continue
                if not on:
                    continue
                dv = obs.get(('dv', f'traj.{ph}.controls:{c}'))
                if (dv is not None) != co['opt']:
                    rec.violation('control freed' if dv else 'control not freed', f'{ph}: {c} declared {co}', spec=replay)
                elif dv is not None:
                    bounds(rec, dv, {k: co.get(k) for k in ('lower', 'upper', 'ref')}, f'{ph}: {c}', 'control', replay, co['units'])
            for c, cc in d['constraints'].items():
                tag = 'path' if cc['type'] == 'path' else cc['loc']
                full = f'traj.{ph}.{c}[{tag}]'
                hit = [k for k in obs if k[0] == 'con' and str(k[1]) == full]
                rec.event('constraint')
                if bool(hit) != on:
                    rec.violation('constraint in the wrong phases', f'{full} {"missing" if on else "present"}', spec=replay)
                elif hit:
                    got = obs[hit[0]]
                    if cc.get('units') and got.get('units') != cc['units']:
                        rec.violation('constraint units', f'{full}: {got.get("units")}, declared {cc}', spec=replay)
                    else:
                        bounds(rec, got, {k: cc.get(k) for k in ('lower', 'upper', 'equals', 'ref')}, full, 'constraint', replay, cc.get('units'))
    # nothing else is named after a subsystem
    for k in obs:
        s = str(k[1])
        for d in decls:
            if d['name'] + '_' not in s and f':{d["name"]}:' not in s:
                continue
            base = s.rsplit('.', 1)[-1]
            ok = any(x in s for x in list(d['states']) + list(d['controls']) + list(d['constraints']) + list(d['design_vars'])) or \
                any(x in s for x, v in d['parameters'].items() if v.get('opt'))
            if not ok:
                rec.violation('not declared', f'{k} ({base}) is in the optimization problem', spec=replay)


def solved(p, ph):
    o = p.model.traj._phases[ph].options['transcription'].options
    return bool(o['solve_segments'])


def link_monitor(rec, spec, decls, p, replay):
    pi = spec['phase_info']
    cons = vp.observe_opt(p)
    names = ms.phases_of(spec)
    main = [n for n in names if not pi[n]['user_options'].get('reserve')]
    res = [n for n in names if pi[n]['user_options'].get('reserve')]
    for d in decls:
        for s in d['states']:
            for chain in (main, res):
                for a, c in zip(chain, chain[1:]):
                    both = all(x in d['on'] or not d['per_phase'] for x in (a, c))
                    if not both:
                        continue
                    x, y = ts(p, a, s, None), ts(p, c, s, None)
                    tied = ms.linked(cons, a, c, s)
                    src = connected_initial(p, c, s)
                    rec.event('state across phases')
                    if s in d['linked']:
                        if not (close(x[-1], y[0], 1e-7) or tied):
                            rec.violation('declared link', f'{s} ends {a} at {x[-1]} and starts {c} at {y[0]}; nothing ties them', spec=replay)
                        if not (tied or src):
                            rec.violation('declared link', f'{s}: {c} starts on its own, no connection from {a}', spec=replay)
                    elif tied or src:
                        rec.violation('undeclared link', f'{s} of {c} is tied to {a}', spec=replay)


def connected_initial(p, ph, s):
    m = p.model
    for tgt, src in m._conn_global_abs_in2out.items():
        if f'.{ph}.' in tgt and tgt.endswith(f'initial_states:{s}') and not src.startswith('_auto_ivc'):
            return True
    return False


def guess_monitor(rec, eom, spec, decls, p, replay):
    for d in decls:
        for k, g in d['guesses'].items():
            for ph in ms.phases_of(spec):
                if d['per_phase'] and ph not in d['on']:
                    continue
                o = p.model.traj._phases[ph]
                if type(o).__name__ == 'AnalyticPhase':
                    continue
                if g['type'] == 'state' and solved(p, ph):
                    continue
                try:
                    got = np.ravel(p.get_val(f'traj.{ph}.{g["type"]}s:{k}', units=g['units']))
                except KeyError:
                    rec.skip('the guessed variable is not an input of the phase')
                    continue
                tau = np.ravel(nodes_of(o, g['type'] + 's', k))
                if got.size != tau.size:
                    rec.skip('guess not sampled at the nodes')
                    continue
                y = np.ravel(np.asarray(g['val'], float))
                want = np.full(tau.size, y[0]) if y.size == 1 else np.interp(tau, np.linspace(-1, 1, y.size), y)
                rec.event('declared guess')
                lead = 1 if g['type'] == 'state' and connected_initial(p, ph, k) else 0
                if not close(got[lead:], want[lead:], 1e-7, 1e-7):
                    rec.violation(f'declared guess of a {g["type"]}', f'{ph}: {k} starts from {got} {g["units"]}, declared {y} (at the nodes {want})', spec=replay)


def undisturbed(rec, eom, spec, decls, cand, upto, rng, replay):
    """Subsystems without masses leave everything else as it is without them."""
    bare = copy.copy(spec)
    bare.pop('external')
    base = diff.attempt('aviary', bare, upto, None, 90)
    if base.error is not None:
        rec.skip('the problem without subsystems does not run')
        return
    # before a run, what is not yet computed is whatever the declarations say
    a = vp.observe(base.b.prob) if upto == 'run' else {}
    c = vp.observe(cand.b.prob) if upto == 'run' else {}
    c = {k: v for k, v in c.items() if k in a}
    bad, n = diff.compare_values(a, c)
    rec.event('undisturbed value', n)
    bad = [x for x in bad if not any(d['name'] in x[0] for d in decls)]
    if bad:
        bad = spread(rec, bare, a, bad, upto, rng)
    if bad:
        first = ', '.join(f'{nm}: {v}' for nm, d_, v in bad[:3])
        rec.violation(f'disturbed: {diff.phase_free(bad[0][0])}', f'{len(bad)} of {n} other values change when the subsystems are added: {first:.700}', spec=replay)
    oa, oc = vp.observe_opt(base.b.prob), vp.observe_opt(cand.b.prob)
    mine = lambda k: any(d['name'] in str(k[1]) for d in decls)
    cons = {k: v for k, v in oc.items() if not mine(k) or k in oa}
    bad = diff.compare_problem(oa, cons)
    rec.event('undisturbed driver entry', len(oa))
    for key, k, v, w in bad[:3]:
        rec.violation(f'disturbed: {key[0]} {diff.phase_free(str(key[1]))}', f'{key}: {k} is {w!r} with the subsystems, {v!r} without', spec=replay)


def spread(rec, bare, a, bad, upto, rng):
    """Differences the problem's own conditioning explains."""
    return diff.explain(rec, bare, upto, a, bad, rng, 90)


def worker(rec, item):
    eom, seed, upto = item
    rng = np.random.default_rng(seed)
    spec, labels, decls, massless = case(rng, eom)
    spec['_eom'] = eom
    replay = replay_of(spec, decls)
    rec.case(ms.diff_key(eom, replay, labels), {'deck': spec['deck'], 'labels': labels, 'subsystems': [d['name'] for d in decls]})
    for d in decls:
        for k in ('pre', 'mission', 'post', 'states', 'controls', 'parameters', 'constraints', 'linked', 'timeseries', 'design_vars', 'guesses', 'pre_bus', 'post_bus', 'masses', 'core_out'):
            if d.get(k):
                rec.seen('declared', k)
        rec.seen('shapes', '+'.join(k for k in ('pre', 'mission', 'post', 'states', 'controls', 'linked', 'pre_bus', 'post_bus', 'masses') if d.get(k)))
    cand_spec = None
    if len(decls) > 1 and rng.random() < 0.3:
        cand_spec = dict(spec, external=spec['external'][::-1])
        decls_c = decls[::-1]
        rec.stat('candidate with the subsystems in the other order')
    else:
        decls_c = decls
    r = diff.run_pair(rec, spec, upto, rng, what=f'{eom} with external subsystems', replay=replay, cand_spec=cand_spec)
    if r is None:
        return
    rec.stat('built ' + eom)
    cand = r[1]
    p = cand.b.prob
    with vp.quiet(), eval_limit(60):
        calls(rec, spec, decls_c, (cand_spec or spec)['external'], replay)
        driver_monitor(rec, spec, decls_c, p, replay)
        guess_monitor(rec, eom, spec, decls_c, p, replay)
        if upto == 'run':
            pre_monitor(rec, spec, decls_c, p, replay)
            mission_monitor(rec, spec, decls_c, p, replay)
            post_monitor(rec, spec, decls_c, p, replay)
            link_monitor(rec, spec, decls_c, p, replay)
    if massless:
        with eval_limit(120):
            undisturbed(rec, eom, spec, decls_c, cand, upto, rng, replay)


def shadowed(rec, item):
    """A parameter declared with a value, for a variable whose metadata has another default."""
    spec = {'deck': 'asa', 'phase_info': gen.default_mission('ES'), 'values': {}}
    d = extsub.blank('ext_fixed')
    n = 'aircraft:ext_fixed:setting'
    d['meta'].append({'name': n, 'units': 'unitless', 'default': 1.0})
    d['parameters'][n] = {'units': 'unitless', 'static_target': True, 'val': 2.5}
    d['mission'] = {'inputs': [{'name': n, 'kind': 'static', 'units': 'unitless', 'val': 1.0}], 'outputs': [{'name': 'ext_fixed_load', 'units': 'kN', 'c0': 1.0, 'coef': {n: 1.0}}]}
    spec['external'] = [extsub.Factory(d)]
    rec.case('shadowed', {'declaration': d})
    with vp.quiet(), eval_limit(120):
        b = vp.build('aviary', spec, 'run')
        got = float(np.ravel(b.prob.get_val(n))[0])
    rec.event('shadowed parameter')
    if got != 2.5:
        rec.violation(f'the metadata default takes the place of a declared parameter value ({got:g} for 2.5, ext_fixed:setting)',
                      f'{n}: get_parameters declares 2.5, the problem uses {got!r}', spec=d)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one mission with one to three random external subsystem declarations; the problem is compared with the reference, every declared thing with what '
                'the built problem holds (values after a run, driver entries, guesses, options of every builder call), and the rest with the same problem without the subsystems')
    n = chk.pick({'ES': 64, '2DOF': 16}, {'ES': 1400, '2DOF': 300})
    it = []
    for eom in ('2DOF', 'ES'):
        for i in range(n[eom]):
            upto = 'guess' if i % 4 == 3 else 'run'
            it.append((eom, [chk.seed, ms.hash_of('M10'), ms.hash_of(eom), i], upto))
    chk.pmap(shadowed, [0], timeout=150)
    chk.pmap(worker, it, timeout=chk.pick(200, 300))
    chk.require('value comparison', 10000)
    chk.require('builder call', 1500)
    chk.require('pre-mission value', 40)
    chk.require('mission input: parameter', 60)
    chk.require('mission input: series', 60)
    chk.require('mission input: bus', 20)
    chk.require('post-mission input: mission value', 20)
    chk.require('post-mission input: pre-mission value', 5)
    chk.require('declared bound', 100)
    chk.require('declared guess', 60)
    chk.require('state across phases', 15)
    chk.require('undisturbed value', 2000)
    chk.require('mass sum', 5)
