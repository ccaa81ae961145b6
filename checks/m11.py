"""Initial guesses reach the trajectory they were given for."""
import copy

import numpy as np
from dymos.utils.lgl import lgl
from dymos.utils.lgr import lgr  # noqa: F401

from vlib import gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import eval_limit

RANGES = {
    'mass': (1.0e5, 1.8e5, 'lbm'), 'distance': (0.0, 2.0e3, 'nmi'), 'altitude': (500.0, 3.8e4, 'ft'), 'mach': (0.2, 0.8, 'unitless'),
    'velocity': (150.0, 700.0, 'ft/s'), 'flight_path_angle': (-0.1, 0.2, 'rad'), 'angle_of_attack': (0.0, 0.15, 'rad'), 'throttle': (0.1, 0.9, 'unitless'),
}


def profile(rng, name, long_):
    lo, hi, u = RANGES[name]
    n = int(rng.choice([1, 2, 3, 4, 6])) if long_ else int(rng.choice([1, 2]))
    v = np.round(rng.uniform(lo, hi, n), 5).tolist()
    return gen.reunit(rng, v[0] if n == 1 else v, u)


def guess_mission(rng, eom):
    spec, labels = ms.make_spec(rng, eom, 1, perturb=1) if eom != 'S2DOF' else ms.make_spec(rng, eom, 1)
    pi = spec['phase_info']
    kinds = set()
    for n in ms.phases_of(spec):
        uo = pi[n]['user_options']
        g = copy.deepcopy(pi[n].get('initial_guesses', {}))
        pt = uo.get('phase_type')
        if pt is not None and getattr(pt, 'name', '') in ('BREGUET_RANGE', 'SIMPLE_CRUISE'):
            if 'mass' in g and rng.random() < 0.6:
                g['mass'] = gen.reunit(rng, [float(np.round(rng.uniform(1.4e5, 1.8e5), 1)), float(np.round(rng.uniform(-4e4, -1e4), 1))], 'lbm')
            pi[n]['initial_guesses'] = g
            continue
        if eom == 'ES':
            cand = ['mass', 'distance', 'altitude', 'mach'] + (['throttle'] if uo.get('throttle_enforcement') == 'control' else [])
        elif eom == '2DOF':
            cand = [k for k in g if k in RANGES]
        else:
            cand = []
        for k in cand:
            r = rng.random()
            if r < 0.25:
                if eom == 'ES':
                    g.pop(k, None)
                continue
            if r < 0.85:
                g[k] = profile(rng, k, eom == '2DOF')
                kinds.add(f'{k} x{np.size(g[k][0])}')
        if 'time' in g or eom == 'ES':
            r = rng.random()
            if r < 0.3 and eom == 'ES':
                g.pop('time', None)
            elif r < 0.8 and uo.get('time_duration') is None:
                g['time'] = gen.reunit(rng, (float(np.round(rng.uniform(0, 300), 3)), float(np.round(rng.uniform(5, 100), 3))), 'min')
        if rng.random() < 0.5 and len(g) > 1:
            keys = list(g)
            rng.shuffle(keys)
            g = {k: g[k] for k in keys}
        if g or 'initial_guesses' in pi[n]:
            pi[n]['initial_guesses'] = g
    return spec, labels, kinds


def nodes_of(ph, kind, name):
    """Where (in -1..1) the guess of a variable is sampled."""
    gd = ph.options['transcription'].grid_data
    if kind == 'states':
        return gd.node_ptau[gd.subset_node_indices['state_input']]
    o = ph.control_options[name]
    if o['control_type'] == 'polynomial':
        return lgl(o['order'] + 1)[0]
    return gd.node_ptau[gd.subset_node_indices['control_input']]


def guess_monitor(rec, eom, spec, b, replay):
    p = b.prob
    traj = p.model.traj
    for n in ms.phases_of(spec):
        ph = traj._phases[n]
        if type(ph).__name__ == 'AnalyticPhase':
            continue
        given = spec['phase_info'][n].get('initial_guesses', {})
        uo = spec['phase_info'][n]['user_options']
        todo = dict(given)
        for k, (v, u) in todo.items():
            if k == 'time':
                if ph.time_options['name'] != 'time':
                    continue
                dur = uo.get('time_duration')
                want = [v[0], v[1]]
                names = ['t_initial', 't_duration']
                for nm, w in zip(names, want):
                    if w is None or (nm == 't_duration' and dur is not None and dur[0] is not None):
                        continue
                    full = f'traj.{n}.{nm}'
                    if eom == '2DOF' and n == 'ascent':
                        full = {'t_initial': 'mission:takeoff:ascent_t_initial', 't_duration': 'mission:takeoff:ascent_duration'}[nm]
                    if not p.model.get_source(full).startswith('_auto_ivc'):
                        continue
                    got = float(np.ravel(p.get_val(full, units=u))[0])
                    rec.event('guess sampled')
                    if not ms.near(got, w, 1e-9, 1e-9):
                        rec.violation(f'{eom} guess of time', f'phase {n}: {nm} starts from {got!r} {u}, the guess is {w!r}', spec=replay)
                continue
            base = k.split(':')[-1] if ':' in k else k
            kind = 'states' if base in ph.state_options else 'controls' if base in ph.control_options else None
            if kind is None:
                continue
            try:
                raw = p.get_val(f'traj.{n}.{kind}:{base}', units=u)
            except Exception:
                rec.skip('the guessed variable is not an input of the phase')
                continue
            got = np.ravel(raw)
            tau = np.ravel(nodes_of(ph, kind, base))
            if got.size != tau.size:
                rec.skip('guess not sampled at the nodes')
                continue
            y = np.ravel(np.asarray(v, float))
            want = np.full(tau.size, y[0]) if y.size == 1 else np.interp(tau, np.linspace(-1, 1, y.size), y)
            # a value of the definition at an end takes precedence over the guess there
            rec.event('guess sampled')
            if not ms.near(got, want, 1e-8, 1e-7):
                rec.violation(f'{eom} guess of {kind}', f'phase {n}: {base} starts from {got} {u}, the guess {v} gives {want}', spec=replay)
        if eom == 'ES':
            if 'mass' not in given:
                gm = p.model.aviary_inputs.get_val('aircraft:design:gross_mass', units='lbm')
                got = p.get_val(f'traj.{n}.states:mass', units='lbm')
                rec.event('derived guess')
                if not ms.near(got, gm, 1e-9):
                    rec.violation('ES guess derived for mass', f'phase {n}: {np.ravel(got)} lbm, design gross mass {gm}', spec=replay)
            for s in ('altitude', 'mach'):
                i, f = uo.get(s + '_initial'), uo.get(s + '_final')
                if s in given or i is None or f is None or i[0] is None or f[0] is None:
                    continue
                try:
                    got = np.ravel(p.get_val(f'traj.{n}.controls:{s}', units=i[1]))
                except Exception:
                    continue
                tau = np.ravel(nodes_of(ph, 'controls', s))
                a, e = i[0], ms.conv(f[0], f[1], i[1])
                rec.event('derived guess')
                if got.size == tau.size and not ms.near(got, a + (e - a) * (tau + 1) / 2, 1e-8, 1e-7):
                    rec.violation(f'ES guess derived for {s}', f'phase {n}: {got}, from {i} to {f}', spec=replay)


def worker(rec, item):
    eom, seed = item
    rng = np.random.default_rng(seed)
    spec, labels, kinds = guess_mission(rng, eom)
    for k in kinds:
        rec.seen('guess shapes', k)
    r = ms.pair(rec, eom, spec, labels, 'guess', rng, f'guesses {eom}')
    if r is None:
        return
    with vp.quiet(), eval_limit(60):
        guess_monitor(rec, eom, spec, r[1].b, spec)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one mission definition with its own set of initial guesses (scalars, ends, profiles, in random units and order, some left out); '
                'every guess is read back at the nodes of its phase and compared with an independent resampling, all starting values with the reference')
    n = chk.pick({'ES': 64, '2DOF': 20, 'S2DOF': 14}, {'ES': 1600, '2DOF': 500, 'S2DOF': 300})
    it = [(eom, [chk.seed, ms.hash_of('M11'), ms.hash_of(eom), i]) for eom in ('2DOF', 'ES', 'S2DOF') for i in range(n[eom])]
    chk.pmap(worker, it, timeout=chk.pick(150, 250))
    chk.require('guess sampled', 400)
    chk.require('derived guess', 60)
    chk.require('value comparison', 10000)
