"""The optimizer is given exactly the problem the user posed."""
import numpy as np

from vlib import diff, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import eval_limit

GM, MGM = 'aircraft:design:gross_mass', 'mission:gross_mass'
OBJ = ['mass', 'time', 'hybrid_objective', 'fuel', 'fuel_burned', None]


def pose(rng, eom):
    """A mission definition with a problem type, objective and extra design variables."""
    spec, labels = ms.make_spec(rng, eom, 2, perturb=2) if eom != 'S2DOF' else ms.make_spec(rng, eom, 2)
    PT = gen.ref('variable_info.enums', 'ProblemType')
    pt = [PT.SIZING, PT.OFF_DESIGN_MIN_FUEL, PT.OFF_DESIGN_MAX_RANGE][int(rng.choice(3, p=[0.45, 0.3, 0.25]))]
    if rng.random() < 0.85:
        spec['problem_type'] = pt
    labels.append(pt.name)
    spec.pop('objective', None)
    r = rng.random()
    if r < 0.62:
        o = OBJ[int(rng.integers(6))]
        if o is not None:
            spec['objective'] = {'objective_type': o}
            if rng.random() < 0.6:
                spec['objective']['ref'] = float(np.round(rng.uniform(0.5, 1e5) * rng.choice([-1, 1]), 3))
        elif rng.random() < 0.5:
            spec['objective'] = {'objective_type': None, 'ref': float(np.round(rng.uniform(-5, 5), 3))}
        labels.append('obj ' + str(o))
    elif r < 0.9:
        names = ['fuel_burned', 'mass', 'time', 'range', 'mission:total_fuel_mass', 'mission:gross_mass', GM]
        names = names[:5]
        k = int(rng.integers(1, 4))
        args = []
        for n in rng.choice(names, size=k, replace=False):
            n = str(n)
            args.append(n if rng.random() < 0.3 else (n, float(np.round(rng.uniform(-3, 5), 2))))
        spec['composite'] = args
        if rng.random() < 0.6:
            spec['composite_kw'] = {'ref': float(np.round(rng.uniform(0.5, 1e4), 3))}
        labels.append('composite')
    if rng.random() < 0.4 and eom != 'S2DOF':
        c = [('aircraft:wing:aspect_ratio', 7.0, 14.0, 'unitless'), ('aircraft:wing:sweep', 20.0, 32.0, 'deg'),
             ('aircraft:engine:scale_factor', 0.8, 1.4, 'unitless'), ('aircraft:wing:taper_ratio', 0.2, 0.4, 'unitless')]
        n, lo, hi, u = c[int(rng.integers(len(c)))]
        kw = {'name': n, 'lower': lo, 'upper': hi, 'units': u}
        if rng.random() < 0.5:
            kw['ref'] = float(np.round(rng.uniform(0.5, 30), 3))
        if rng.random() < 0.5:
            kw['default_val'] = float(np.round(rng.uniform(lo, hi), 4))
        spec['dv_default'] = [kw]
        labels.append('extra dv')
    return spec, labels


def scaled(m, ref):
    """Does the driver scale by ref?"""
    r = m.get('ref')
    return ms.near(1.0 if r is None else r, ref, 1e-9, 0)


def problem_monitor(rec, eom, spec, b, replay):
    p = b.prob
    opt = vp.observe_opt(p)
    PT = (spec.get('problem_type').name if spec.get('problem_type') is not None else None)
    pi = spec['phase_info']
    post = pi.get('post_mission', {})

    def dv(n):
        return opt.get(('dv', n))

    def con(n):
        return opt.get(('con', n))

    def want(cond, what, msg):
        rec.event('posed problem')
        if not cond:
            rec.violation(f'{eom} {what}', msg, spec=replay)

    if PT is None:
        PT = 'SIZING' if str(p.problem_type).endswith('SIZING') else None
    if eom != 'S2DOF':
        if PT == 'SIZING':
            for n in (GM, MGM):
                m = dv(n)
                want(m is not None, 'sizing frees gross mass', f'{n} is not a design variable of a sizing problem')
                if m is not None:
                    want(ms.bound_ok(m['lower'], 10.0) and ms.bound_ok(m['upper'], None), 'gross mass bounds', f'{n}: {m}')
            g = [k for k in opt if k[0] == 'con' and 'GTOW' in str(k[1])]
            want(len(g) == 1 and ms.near(opt[g[0]]['equals'], 0.0), 'sizing ties design and mission gross mass', f'{g}')
            need = eom == '2DOF' or 'target_range' in post
            want((con('mission:constraints:range_residual') is not None) == need, 'sizing range requirement',
                 f'target_range {post.get("target_range")}: range residual constraint is {con("mission:constraints:range_residual")}')
        elif PT == 'OFF_DESIGN_MIN_FUEL':
            m = dv(MGM)
            want(dv(GM) is None, 'off-design keeps the design gross mass', f'{GM} is a design variable')
            want(m is not None, 'off-design frees the mission gross mass', 'not a design variable')
            d = spec.get('values', {}).get(GM) or gen.deck_values(spec['deck']).get(GM)
            if m is not None and d is not None:
                w = ms.conv(d[0], d[1], 'lbm')
                want(ms.bound_ok(m['upper'], w) and ms.bound_ok(m['lower'], 10.0), 'off-design gross mass bounds',
                     f'{m["lower"]} to {m["upper"]}, design gross mass {w}')
            c = con('mission:constraints:range_residual')
            want(c is not None and ms.near(c['equals'], 0.0), 'off-design requires the range', f'{c}')
        elif PT == 'OFF_DESIGN_MAX_RANGE':
            want(dv(GM) is None and dv(MGM) is None, 'maximum range keeps the gross masses', f'{dv(GM)} {dv(MGM)}')
            want(con('mission:constraints:range_residual') is None, 'maximum range does not fix the range', 'range residual is constrained')
    c = con('mission:constraints:mass_residual')
    want(c is not None, 'fuel balance', 'the mass residual is not constrained')
    if c is not None:
        if eom == 'S2DOF':
            want(c['equals'] is None and ms.near(c['lower'], 0.0), 'fuel balance', f'{c}')
        else:
            want(c['equals'] is not None and ms.near(c['equals'], 0.0), 'fuel balance', f'{c}')
    ig = spec.get('values', {}).get('aircraft:fuel:ignore_fuel_capacity_constraint') or gen.deck_values(spec['deck']).get('aircraft:fuel:ignore_fuel_capacity_constraint')
    c = con('mission:constraints:excess_fuel_mass_capacity')
    want((c is None) == bool(ig and ig[0]), 'fuel capacity', f'ignored: {ig}, constraint {c}')
    if c is not None:
        want(ms.near(c['lower'], 0.0) and ms.bound_ok(c['upper'], None), 'fuel capacity', f'{c}')
    if eom == '2DOF':
        for n, lo, hi in (('mission:takeoff:ascent_t_initial', 0.0, 100.0), 
                          ('tau_gear', 0.01, 1.0), ('tau_flaps', 0.01, 1.0)):
            m = dv(n)
            want(m is not None and ms.bound_ok(m['lower'], lo) and ms.bound_ok(m['upper'], hi), 'takeoff design variables', f'{n}: {m}')
        for n, v in (('h_fit.h_init_gear', 50.0), ('h_fit.h_init_flaps', 400.0)):
            m = con(n)
            want(m is not None and ms.near(m['equals'], v), 'takeoff heights', f'{n}: {m}')
    for kw in spec.get('dv_default', ()):
        m = dv(kw['name'])
        want(m is not None, 'added design variable', f'{kw["name"]} is not a design variable')
        if m is not None:
            want(ms.bound_ok(m['lower'], kw['lower']) and ms.bound_ok(m['upper'], kw['upper']), 'added design variable', f'{kw}: {m["lower"]}, {m["upper"]}')
            want(scaled(m, kw.get('ref') or 1.0), 'added design variable scaling', f'{kw}: {m["ref"]}')
            if 'default_val' in kw and kw['name'] != 'aircraft:engine:scale_factor' and kw['name'] not in gen.deck_values(spec['deck']) and kw['name'] not in spec.get('values', {}):
                want(ms.near(p.get_val(kw['name'], units=kw['units']), kw['default_val'], 1e-9), 'added design variable default', f'{kw}: {p.get_val(kw["name"])}')
    obj = [k for k in opt if k[0] == 'obj']
    want(len(obj) == 1, 'one objective', f'{obj}')
    o = spec.get('objective')
    ref = None
    if spec.get('composite') is not None:
        ref = spec.get('composite_kw', {}).get('ref')
        if ref is None and len(spec['composite']) == 1:
            a = spec['composite'][0]
            ref = {'fuel_burned': 1e4, 'mass': -5e4}.get(a if isinstance(a, str) else a[0])
        ref = ref or 1.0
    elif o is not None:
        ref = o.get('ref')
        if o['objective_type'] == 'hybrid_objective':
            ref = 1.0
        if ref is None and o['objective_type'] in ('time', None):
            ref = 1.0
        if ref is None and o['objective_type'] in ('fuel', 'fuel_burned'):
            ref = 1e4
    if obj and ref:
        want(scaled(opt[obj[0]], ref), 'objective scaling', f'{o}, {spec.get("composite_kw")}: {opt[obj[0]]["ref"]}')
    return obj


def objective_monitor(rec, eom, spec, b, obj, replay):
    """After a run: the objective's value is the documented combination of what the problem reports."""
    p = b.prob
    g = lambda n, u: float(np.ravel(p.get_val(n, units=u))[-1])
    names = ms.phases_of(spec)
    main = [n for n in names if not spec['phase_info'][n]['user_options'].get('reserve')]
    o = (spec.get('objective') or {'objective_type': None})['objective_type']
    m = vp.observe_opt(p)[obj[0]]
    drv = list(p.driver.get_objective_values().values())
    got = float(np.ravel(drv[0])[0]) * (m['ref'] if m.get('ref') is not None else 1.0)
    asc = ms.get(p, 'mission:takeoff:ascent_duration', 's') or 0.0
    fuel = g('mission:total_fuel_mass', 'lbm') / 1e4 + asc / 30
    if spec.get('composite') is not None:
        tot, w = 0.0, 0.0
        v = {'fuel_burned': ('mission:fuel_mass', 'lbm'), 'mass': ('mission:final_mass', 'lbm'), 'time': ('mission:final_time', 'min'),
             'range': ('mission:range', 'nmi'), 'mission:total_fuel_mass': ('mission:total_fuel_mass', 'lbm')}
        for a in spec['composite']:
            n, wt = (a, 1.0) if isinstance(a, str) else a
            tot += wt * g(*v[n])
            w += wt
        want = tot / w
    elif o == 'mass':
        want = g(f'traj.{main[-1]}.timeseries.mass', m['units'])
    elif o == 'time':
        want = g(f'traj.{main[-1]}.timeseries.time', m['units'])
    elif o == 'hybrid_objective':
        d = spec.get('values', {}).get(GM) or gen.deck_values(spec['deck']).get(GM)
        want = -g(f'traj.{names[-1]}.timeseries.mass', 'lbm') / ms.conv(d[0], d[1], 'lbm') + g(f'traj.{names[-1]}.timeseries.time', 'h') / 5
    elif o == 'fuel_burned':
        want = g('mission:fuel_mass', m['units'] or 'lbm')
    elif o == 'fuel' or spec.get('problem_type') is None or spec['problem_type'].name != 'OFF_DESIGN_MAX_RANGE':
        want = fuel
    else:
        want = -g('mission:range', 'nmi') / 1000 + asc / 30
    rec.event('objective value')
    if not ms.near(got, want, 1e-7, 1e-9):
        rec.violation(f'{eom} objective value: {"composite" if spec.get("composite") else o}', f'the driver minimizes {got!r}, it should be {want!r}', spec=replay)


def worker(rec, item):
    eom, seed, upto = item
    rng = np.random.default_rng(seed)
    spec, labels = pose(rng, eom)
    r = ms.pair(rec, eom, spec, labels, upto, rng, f'posed {eom}')
    if r is None:
        return
    rec.seen('problem types and objectives', '/'.join(labels[-3:]))
    with vp.quiet(), eval_limit(60):
        obj = problem_monitor(rec, eom, spec, r[1].b, spec)
        if upto == 'run' and obj:
            objective_monitor(rec, eom, spec, r[1].b, obj, spec)


def pose_multi(rng):
    n = int(rng.choice([2, 2, 3]))
    ms_, names = [], []
    deck = str(rng.choice(['asa', 'lsa1', 'lsa2', 'min']))
    for i in range(n):
        pi, lab = gen.energy_mission(rng)
        if 'target_range' not in pi['post_mission']:
            pi['post_mission']['target_range'] = gen.reunit(rng, float(np.round(rng.uniform(800, 2500), 1)), 'nmi')
        names.append(['alpha', 'mission1', 'zed'][i])
        ms_.append({'name': names[-1], 'deck': deck, 'phase_info': pi, 'values': gen.perturb_deck(rng, deck, 1)})
    spec = {'missions': ms_, 'deck': deck, 'promote': [(GM, 'A:GM'), ('aircraft:design:range', 'A:R')],
            'dv_default': [{'name': 'A:GM', 'lower': 10.0, 'upper': 9e5, 'units': 'lbm', 'default_val': float(np.round(rng.uniform(1.2e5, 2e5), 1))}],
            'design_range': (tuple(names) if rng.random() < 0.7 else tuple(names[:1]), 'A:R')}
    outs = ['mission:fuel_mass', 'mission:final_time', 'mission:final_mass', 'mission:total_fuel_mass']
    if rng.random() < 0.5:
        args = []
        for nm in names:
            o = str(rng.choice(['fuel_burned', 'mass', 'time', 'range', *outs]))
            args.append((nm, o) if rng.random() < 0.4 else (nm, o, float(np.round(rng.uniform(0.2, 5), 2))))
        spec['composite'] = args
        if rng.random() < 0.6:
            spec['composite_kw'] = {'ref': float(np.round(rng.uniform(1, 1e4), 2))}
    else:
        k = int(rng.integers(1, 4))
        spec['composite_adv'] = {'missions': list(names), 'outputs': [str(x) for x in rng.choice(outs, size=k, replace=False)],
                                 'ref': float(np.round(rng.uniform(1, 1e4), 2))}
        if rng.random() < 0.7:
            spec['composite_adv']['mission_weights'] = [float(x) for x in np.round(rng.uniform(0.2, 5, n), 2)]
        if rng.random() < 0.7:
            spec['composite_adv']['output_weights'] = [float(x) for x in np.round(rng.uniform(0.2, 5, k), 2)]
    return spec, names


UN = {'fuel_burned': ('mission:fuel_mass', 'lbm'), 'mass': ('mission:final_mass', 'lbm'), 'time': ('mission:final_time', 'min'), 'range': ('mission:range', 'nmi'),
      'mission:fuel_mass': ('mission:fuel_mass', 'lbm'), 'mission:final_time': ('mission:final_time', 'min'), 'mission:final_mass': ('mission:final_mass', 'lbm'),
      'mission:total_fuel_mass': ('mission:total_fuel_mass', 'lbm')}


def multi_worker(rec, item):
    seed, upto = item
    rng = np.random.default_rng(seed)
    spec, names = pose_multi(rng)
    rec.case(ms.diff_key('MULTI', spec, names), {'deck': spec['deck'], 'missions': names})
    r = diff.run_pair(rec, spec, upto, rng, what='multi-mission', limit=120)
    if r is None:
        return
    rec.stat('built MULTI')
    p = r[1].b.prob
    opt = vp.observe_opt(p)

    def want(cond, what, msg):
        rec.event('posed problem')
        if not cond:
            rec.violation(f'multi-mission {what}', msg, spec=spec)

    from openmdao.utils.units import convert_units as cu
    with vp.quiet(), eval_limit(60):
        want([k for k in opt if k[0] == 'dv' and str(k[1]) == 'A:GM'] != [], 'shared design variable', 'A:GM is not a design variable')
        for n in names:
            m = opt.get(('dv', f'{n}.{MGM}'))
            want(m is not None and ms.bound_ok(m['lower'], 10.0) and ms.bound_ok(m['upper'], 9e5), 'mission gross mass', f'{n}: {m}')
            c = opt.get(('con', f'{n}.gross_mass_resid'))
            want(c is not None and ms.near(c['lower'], 0.0), 'heaviest mission', f'{n}: {c}')
            c = opt.get(('con', f'{n}.mission:constraints:range_residual'))
            want(c is not None and ms.near(c['equals'], 0.0), 'range of each mission', f'{n}: {c}')
            c = opt.get(('con', f'{n}.mission:constraints:mass_residual'))
            want(c is not None and ms.near(c['equals'], 0.0), 'fuel balance of each mission', f'{n}: {c}')
        sel = spec['design_range'][0]
        w = max(cu(m['phase_info']['post_mission']['target_range'][0], m['phase_info']['post_mission']['target_range'][1], 'nmi') for m in spec['missions'] if m['name'] in sel)
        want(ms.near(p.get_val('A:R', units='nmi'), w, 1e-9), 'design range', f'{p.get_val("A:R", units="nmi")}, longest {w}')
        if upto != 'run':
            return
        g = lambda m, o: float(np.ravel(p.get_val(f'{m}.{UN[o][0]}', units=UN[o][1]))[-1])
        if 'composite' in spec:
            args = [(a[0], a[1], a[2] if len(a) > 2 else 1.0) for a in spec['composite']]
            tot = sum(a[2] for a in args)
            val = sum(g(a[0], a[1]) * a[2] for a in args) / tot
        else:
            a = spec['composite_adv']
            mw = np.array(a.get('mission_weights') or np.ones(len(names)))
            ow = np.array(a.get('output_weights') or np.ones(len(a['outputs'])))
            val = sum(g(m, o) * x * y for m, x in zip(names, mw / mw.sum()) for o, y in zip(a['outputs'], ow / ow.sum()))
        rec.event('objective value')
        got = float(np.ravel(p.get_val('composite_objective'))[0])
        if not ms.near(got, val, 1e-8, 1e-9):
            rec.violation('multi-mission objective value', f'composite objective {got!r}, the weighted mean is {val!r}', spec=spec)


def dispatch(rec, item):
    (multi_worker if item[0] == 'MULTI' else worker)(rec, item[1:] if item[0] == 'MULTI' else item)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one posed problem: mission definition, problem type, objective (single, composite, several missions) and extra design '
                'variables; the driver problem is judged against the definition and against the reference, the objective also by its value after a run')
    n = chk.pick({'ES': 60, '2DOF': 14, 'S2DOF': 20, 'MULTI': 12}, {'ES': 800, '2DOF': 240, 'S2DOF': 400, 'MULTI': 200})
    it = []
    for i in range(n['MULTI']):
        it.append(('MULTI', [chk.seed, ms.hash_of('M05m'), i], 'run' if i % 2 == 0 else 'setup'))
    for eom in ('2DOF', 'ES', 'S2DOF'):
        for i in range(n[eom]):
            run_ = {'ES': i % 3 == 0, '2DOF': i % 7 == 0, 'S2DOF': False}[eom]
            it.append((eom, [chk.seed, ms.hash_of('M05'), ms.hash_of(eom), i], 'run' if run_ else 'setup'))
    chk.pmap(dispatch, it, timeout=chk.pick(200, 300))
    chk.require('posed problem', 800)
    chk.require('objective value', 20)
    chk.require('driver problem comparison', 1500)
