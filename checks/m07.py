"""Saved results reload to the same aircraft; off-design flies that aircraft."""
import contextlib
import copy
import importlib
import json
import os
import re
import shutil
import tempfile
from enum import Enum
from pathlib import Path

import numpy as np
from openmdao.utils.units import convert_units

from vlib import diff, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import CaseTimeout, eval_limit

GM, DGM = 'mission:gross_mass', 'aircraft:design:gross_mass'
CP = 'aircraft:crew_and_payload:'
CLASSES = [CP + 'num_first_class', CP + 'num_business_class', CP + 'num_economy_class']


class Success:
    success = True


@contextlib.contextmanager
def hooked(pkg):
    """Instead of optimizing, run the model; instead of optimizers that are not here, the one that is."""
    A = importlib.import_module(pkg + '.core.aviary_problem').AviaryProblem
    run, drv = A.run_aviary_problem, A.add_driver

    def run_model(self, *a, **k):
        self.set_solver_print(-1)
        self.run_model()
        self.result = Success()
        return self.result

    def add_driver(self, optimizer=None, *a, **k):
        return drv(self, 'SLSQP', *a, **k)

    A.run_aviary_problem, A.add_driver = run_model, add_driver
    try:
        yield
    finally:
        A.run_aviary_problem, A.add_driver = run, drv


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix='m07_', dir=here)
    os.chdir(d)
    try:
        yield Path(d)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ histories
def off_op(rng, spec, eom):
    kw = {'problem_type': str(rng.choice(['off_design_min_fuel', 'off_design_max_range']))}
    gasp = str(gen.deck_values(spec['deck']).get('settings:mass_method', (('FLOPS'), None))[0]).upper().endswith('GASP')
    r = rng.random()
    if r < 0.3:
        kw['num_pax'] = int(rng.integers(1, 180))
    elif r < 0.65 and not gasp:
        for k in ('num_first_class', 'num_business', 'num_economy'):
            if rng.random() < 0.7:
                kw[k] = int(rng.choice([0, 0, 3, 11, 60, 150]))
    if rng.random() < 0.35:
        kw['cargo_mass'] = float(np.round(rng.uniform(0, 9000), 1))
    if not gasp:
        for k in ('wing_cargo', 'misc_cargo'):
            if rng.random() < 0.3:
                kw[k] = float(rng.choice([0.0, np.round(rng.uniform(10, 5000), 1)]))
    if kw['problem_type'] == 'off_design_min_fuel':
        if rng.random() < 0.6:
            kw['mission_range'] = float(np.round(rng.uniform(300, 3500), 2))
        if rng.random() < 0.3:
            kw['mission_gross_mass'] = float(np.round(rng.uniform(1.0e5, 1.8e5), 1))
    elif rng.random() < 0.6:
        kw['mission_gross_mass'] = float(np.round(rng.uniform(1.0e5, 1.8e5), 1))
    r = rng.random()
    if r < 0.12:
        kw['fill_fuel'] = True
    elif r < 0.3 and (not gasp or 'cargo_mass' in kw):
        kw['fill_cargo'] = True
    if rng.random() < 0.3:
        kw['name'] = 'od%d' % rng.integers(0, 1000)
    return kw


def make_history(rng, eom):
    spec, labels = ms.make_spec(rng, eom, int(rng.integers(0, 3)), perturb=3) if eom != 'S2DOF' else ms.make_spec(rng, eom, 0)
    spec['max_iter'] = int(rng.integers(3, 60))
    sized = {}
    if rng.random() < 0.75 and eom != 'S2DOF':
        g = float(np.round(rng.uniform(1.3e5, 1.9e5), 1))
        sized = {GM: g, DGM: g if rng.random() < 0.5 else float(np.round(rng.uniform(1.3e5, 1.9e5), 1))}
    ops = []
    n = int(rng.integers(1, 4))
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            ops.append(('save', 'f%d.json' % rng.integers(0, 2)))
        elif r < 0.55:
            f = 'f%d.json' % rng.integers(0, 2)
            ops += [('save', f), ('reload', f)]
            if eom == 'ES' and rng.random() < 0.4:
                ops.append(('off_reloaded', off_op(rng, spec, eom)))
        elif r < 0.68 and eom == 'ES':
            ops.append(('payload_range', {}))
        else:
            ops.append(('off', off_op(rng, spec, eom)))
    return spec, labels, sized, ops


def plain(x):
    """Comparable form of anything an input may hold."""
    if isinstance(x, Enum):
        return type(x).__name__ + '.' + x.name
    if isinstance(x, Path):
        return str(x)
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return type(x).__name__


def inputs_of(av):
    return {n: (plain(v), u) for n, (v, u) in av}


def snapshot(p):
    m = p.model
    return {
        'inputs': inputs_of(p.aviary_inputs), 'model inputs': inputs_of(m.aviary_inputs),
        'phases': plain(m.mission_info), 'pre_mission': plain(m.pre_mission_info), 'post_mission': plain(m.post_mission_info),
        'engines': [inputs_of(e.options) for e in m.engine_models],
        'values': vp.observe(p), 'driver': {k: plain({a: b for a, b in v.items()}) for k, v in vp.observe_opt(p).items()},
        'optimizer': (p.driver.options['optimizer'], p.driver.options['maxiter']),
    }


def changed(a, b, path=''):
    """Where two snapshots differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                yield f'{path}/{k}'
            else:
                yield from changed(a[k], b[k], f'{path}/{k}')
        return
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            yield from changed(x, y, f'{path}[{i}]')
        return
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (np.shape(a) == np.shape(b) and np.array_equal(a, b, equal_nan=True)):
            yield path
        return
    if a != b and not (a != a and b != b):
        yield f'{path}: {str(a)[:60]} -> {str(b)[:60]}'


def base_problem(pkg, spec, sized):
    b = vp.build(pkg, spec, 'guess')
    p = b.prob
    for n, v in sized.items():
        p.set_val(n, v, units='lbm')
    p.set_solver_print(-1)
    p.run_model()
    p.result = Success()
    return b


def replay_history(pkg, spec, sized, ops, on=None):
    """[(op, what it gave)] in package pkg; on(i, op, base, result) is called after each operation."""
    mod = importlib.import_module(pkg + '.core.aviary_problem')
    out = []
    with hooked(pkg):
        b = base_problem(pkg, spec, sized)
        p = b.prob
        if on:
            on(-1, None, p, None)
        last = None
        for i, (op, arg) in enumerate(ops):
            arg = copy.deepcopy(arg)
            if op == 'save':
                p.save_results(arg)
                res = json.load(open(arg))
            elif op == 'reload':
                res = last = mod.reload_aviary_problem(arg, phase_info=vp.conv(spec['phase_info'], pkg))
                adopt(p, last)
            elif op == 'off':
                res = p.run_off_design_mission(**arg)
            elif op == 'off_reloaded':
                last.result = Success()
                res = last.run_off_design_mission(**arg)
            elif op == 'payload_range':
                res = p.run_payload_range()
            out.append((op, res, p))
            if on:
                on(i, (op, arg), p, res)
    return out


def adopt(p, q):
    """Start q from what p starts from, and run it."""
    for n, (v, u) in vp.observe(p).items():
        if n.startswith('in:') or '.states:' in n:
            try:
                q.set_val(n.removeprefix('in:'), v, units=u)
            except Exception:
                continue
    q.set_solver_print(-1)
    q.run_model()


# ------------------------------------------------------------------ oracles
def judge_save(rec, p, entries, replay):
    byname = {}
    for e in entries:
        byname.setdefault(e[0], []).append(e)
    n = 0
    for name, (v, u) in p.aviary_inputs:
        n += 1
        if len(byname.get(name, [])) != 1:
            rec.violation('save: an input is not in the file once', f'{name} is there {len(byname.get(name, []))} times', spec=replay)
            continue
        _, w, wu, t = byname[name][0]
        if name in (GM, DGM):
            v = float(p.get_val(name, units=u)[0])
        want = v
        if isinstance(v, Enum):
            want = v.name
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], Enum):
            want = [e.name for e in v]
        want = json.loads(json.dumps(plain(want)))
        if wu != u or want != w:
            rec.violation(f'save: {name} is saved differently', f'{name} = {want!r} {u} is saved as {w!r} {wu}', spec=replay)
    if DGM not in byname:
        rec.violation('save: no design gross mass in the file', 'aircraft:design:gross_mass is missing', spec=replay)
    else:
        _, w, wu, t = byname[DGM][0]
        got = float(p.get_val(DGM, units=wu)[0])
        if not ms.near(w, got, 1e-12):
            rec.violation('save: the design gross mass is saved differently', f'{got} {wu}, saved {w}', spec=replay)
    rec.event('saved input', n)


def judge_reload(rec, p, q, replay):
    a, b = inputs_of(p.aviary_inputs), inputs_of(q.aviary_inputs)
    for name, (v, u) in a.items():
        rec.event('reloaded input')
        if name not in b:
            rec.violation(f'reload: an input is lost ({name})', f'{name} = {v!r} {u} is not in the reloaded problem', spec=replay)
            continue
        w, wu = b[name]
        if name in (GM, DGM):
            v = float(p.get_val(name, units=u)[0])
        same = v == w or (isinstance(w, list) and len(w) == 1 and w[0] == v) or (isinstance(v, list) and len(v) == 1 and v[0] == w)
        if not same:
            try:
                same = np.array_equal(np.asarray(v, float), np.asarray(w, float), equal_nan=True)
            except (TypeError, ValueError):
                same = False
        if wu != u or not same:
            rec.violation(f'reload: {name} has another value', f'{name} = {v!r} {u} is {w!r} {wu} in the reloaded problem', spec=replay)
    x, y = vp.observe(p), vp.observe(q)
    bad, n = diff.compare_values(x, y)
    bad = [t for t in bad if 'AIRCRAFT_DATA_OVERRIDE' not in t[0] and t[1] != 'missing']
    rec.event('reloaded problem value', n)
    if bad:
        rec.violation(f'reload: computes another {diff_name(bad[0][0])}', ', '.join(f'{nm}: {diff._short(vw[0])} -> {diff._short(vw[1])}' for nm, d, vw in bad[:4]), spec=replay)


def diff_name(n):
    return re.sub(r'traj\.[^.]+\.', 'traj.<phase>.', n)


MAY = {'settings:problem_type', 'settings:equations_of_motion', GM, DGM, 'mission:range', CP + 'num_passengers', *CLASSES, CP + 'wing_cargo', CP + 'misc_cargo', CP + 'cargo_mass',
       CP + 'design:cargo_mass', CP + 'design:max_cargo_mass', CP + 'passenger_payload_mass', CP + 'total_payload_mass'}


def judge_off(rec, p, o, kw, replay, max_iter):
    a, b = inputs_of(p.aviary_inputs), inputs_of(o.aviary_inputs)
    gasp = p.aviary_inputs.get_val('settings:mass_method').name == 'GASP'
    for name, v in a.items():
        if name in MAY:
            continue
        rec.event('inherited input')
        if b.get(name) != v:
            rec.violation(f'off-design: {name} is not the one of the sized aircraft', f'{name} = {v} became {b.get(name)}', spec=replay)
    want = {'settings:problem_type': 'ProblemType.' + kw['problem_type'].upper()}
    for k, n in zip(('num_first_class', 'num_business', 'num_economy'), CLASSES):
        if kw.get(k) is not None:
            want[n] = kw[k]
    given = any(kw.get(k) is not None for k in ('num_first_class', 'num_business', 'num_economy'))
    if gasp:
        if kw.get('num_pax') is not None:
            want[CP + 'num_passengers'] = kw['num_pax']
    elif kw.get('num_pax') is not None and not given:
        want[CP + 'num_passengers'] = kw['num_pax']
    else:
        now = [kw[k] if kw.get(k) is not None else a[n][0] for k, n in zip(('num_first_class', 'num_business', 'num_economy'), CLASSES)]
        want[CP + 'num_passengers'] = sum(now)
    for name, v in want.items():
        rec.event('requested change')
        if name not in b or b[name][0] != v:
            rec.violation(f'off-design: {name} is not the requested one', f'{kw}: {name} should be {v}, is {b.get(name)}', spec=replay)
    dgm = float(p.get_val(DGM, units='lbm')[0])
    got = float(o.get_val(DGM, units='lbm')[0])
    if not ms.near(dgm, got, 1e-9):
        rec.violation('off-design: another design gross mass', f'{dgm} lbm, off-design {got}', spec=replay)
    for k, n in (('wing_cargo', CP + 'wing_cargo'), ('misc_cargo', CP + 'misc_cargo'), ('cargo_mass', CP + 'cargo_mass')):
        if kw.get(k) is None or kw.get('fill_cargo') or (gasp and k != 'cargo_mass'):
            continue
        got = ms.get(o, n, 'lbm')
        rec.event('requested change')
        if got is not None and not ms.near(got, kw[k], 1e-9):
            rec.violation(f'off-design: {n} is not the requested one', f'{kw[k]} lbm requested, {got} flown', spec=replay)
    gm = float(o.get_val(GM, units='lbm')[0])
    if kw['problem_type'] == 'off_design_max_range':
        w = kw.get('mission_gross_mass')
        w = dgm if w is None else w
        rec.event('requested change')
        if not ms.near(gm, w, 1e-9):
            rec.violation('off-design: gross mass is not the requested one', f'{w} lbm requested, {gm} flown', spec=replay)
    else:
        w = kw.get('mission_range')
        w = float(p.get_val('mission:range', units='nmi')[0]) if w is None else w
        t = o.model.post_mission_info.get('target_range')
        rec.event('requested change')
        if t is None or not ms.near(ms.conv(t[0], t[1], 'nmi'), w, 1e-9):
            rec.violation('off-design: range is not the requested one', f'{w} nmi requested, target is {t}', spec=replay)
    if o.driver.options['optimizer'] != p.driver.options['optimizer'] or o.driver.options['maxiter'] != max_iter:
        rec.violation('off-design: another optimizer', f'{o.driver.options["maxiter"]} iterations, {max_iter} in the sizing problem', spec=replay)
    # the aircraft is the sized one
    x, y = vp.observe(p, False), vp.observe(o, False)
    for name, (v, u) in x.items():
        if not name.startswith('aircraft:') or name.startswith(CP) or name == 'aircraft:design:operating_mass':
            continue
        if name not in y:
            rec.violation(f'off-design: {name} is not computed', 'it is in the sized problem', spec=replay)
            continue
        rec.event('inherited aircraft value')
        d = diff.difference(v, diff.to_units(y[name][0], y[name][1], u))
        if d > 1e-7:
            rec.violation(f'off-design: another {name}', f'{v} {u} for the sized aircraft, {y[name][0]} {y[name][1]} off-design', spec=replay)


def judge_payload(rec, p, res, replay):
    if not res:
        rec.violation('payload-range: no result', 'the sizing run converged', spec=replay)
        return
    p3, p4 = res
    d = {k: v for k, v in p.payload_range_data}
    g = lambda q, n: float(q.get_val(n)[0])  # noqa: E731
    pl, fu, ra = CP + 'total_payload_mass', 'mission:fuel_mass', 'mission:range'
    want = {'Payload': [g(p, pl), g(p, pl), g(p3, pl), g(p4, pl)], 'Fuel': [0, g(p, fu), g(p3, fu), g(p4, fu)], 'Range': [0, g(p, ra), g(p3, ra), g(p4, ra)]}
    for k, w in want.items():
        rec.event('payload-range value', 4)
        if not ms.near(np.asarray(d[k][0], float), w, 1e-12, 1e-9):
            rec.violation(f'payload-range: {k} is not the one flown', f'{d[k][0]} reported, {w} flown', spec=replay)
    L = lambda q, n: float(q.get_val(n, units='lbm')[0])  # noqa: E731
    if abs(L(p4, pl)) > 1e-9:
        rec.violation('payload-range: the ferry mission carries payload', f'{L(p4, pl)} lbm', spec=replay)
    cap, unus = L(p, 'aircraft:fuel:max_capacity_mass'), L(p, 'aircraft:fuel:unusable_fuel_mass')
    om, gross = L(p, 'mission:operating_mass'), L(p, GM)
    full = om + cap - unus
    ferry = full if full < gross else gross
    rec.event('payload-range value')
    if not ms.near(L(p4, GM), ferry, 1e-9):
        rec.violation('payload-range: gross mass of the ferry mission', f'{L(p4, GM)} lbm, operating mass {om}, usable capacity {cap - unus}, gross mass {gross}', spec=replay)
    if (p3 is p4) != (not full < gross):
        rec.violation('payload-range: the point of full tanks', f'full tanks {full}, gross mass {gross}, same point {p3 is p4}', spec=replay)
    f = Path(p.get_reports_dir()) / 'payload_range_data.csv'
    rows = [ln.split(',') for ln in f.read_text().splitlines() if ln and not ln.startswith('#')]
    nums = []
    for r in rows:
        try:
            nums.append([float(x) for x in r[1:]])
        except ValueError:
            continue
    w = np.array([want['Payload'], want['Fuel'], want['Range']], float).T
    if np.shape(nums) != w.shape or not ms.near(np.array(nums), w, 1e-6, 1e-3):
        rec.violation('payload-range: the file is not what was flown', f'{nums}, flown {w.tolist()}', spec=replay)
    rec.event('payload-range file')


def worker(rec, item):
    eom, seed = item
    rng = np.random.default_rng(seed)
    spec, labels, sized, ops = make_history(rng, eom)
    replay = {'spec': spec, 'sized': sized, 'ops': ops}
    rec.case(ms.diff_key(eom, replay, labels), {'deck': spec['deck'], 'ops': ops})
    for op, _ in ops:
        rec.seen('operations', op)
    state = {}

    def on(i, op, p, res):
        s = snapshot(p)
        if i >= 0:
            rec.event('non-interference')
            bad = list(changed(state['s'], s))
            if op[0] == 'payload_range':
                bad = [b for b in bad if 'payload_range' not in b]
            if bad:
                rec.violation(f'{op[0]} changes the problem it starts from', f'{op}: {bad[:5]}', spec=replay)
            rec.seen('operation pairs', f"{state.get('op')}>{op[0]}")
            state['op'] = op[0]
            if op[0] == 'save':
                judge_save(rec, p, res, replay)
            elif op[0] == 'reload':
                judge_reload(rec, p, res, replay)
                res.save_results('again.json')
                one = {e[0]: e[1:3] for e in json.load(open(op[1]))}
                two = {e[0]: e[1:3] for e in json.load(open('again.json'))}
                rec.event('saved again')
                for n in one:
                    if not same_entry(one.get(n), two.get(n)):
                        rec.violation(f'reload: saved again, {n} is another one', f'{one.get(n)} -> {two.get(n)}', spec=replay)
            elif op[0] == 'off':
                judge_off(rec, p, res, op[1], replay, spec['max_iter'])
            elif op[0] == 'payload_range':
                judge_payload(rec, p, res, replay)
        state['s'] = s

    def attempt(pkg, on=None):
        with scratch(), vp.quiet(), eval_limit(160):
            try:
                return replay_history(pkg, spec, sized, ops, on), None
            except CaseTimeout:
                raise
            except Exception as e:
                return None, e

    r, re_ = attempt('aviary_ref')
    if diff.unsettled(re_) or isinstance(re_, diff.EvalTimeout):
        rec.skip('the reference did not converge')
        return
    c, ce = attempt('aviary', on)
    if re_ is not None or ce is not None:
        rec.event('rejection comparison')
        if re_ is not None and ce is not None:
            rec.stat(f'both reject: {type(re_).__name__}: {str(re_)[:100]}')
            return
        if diff.unsettled(ce) or isinstance(ce, diff.EvalTimeout):
            rec.skip('convergence')
            return
        rec.violation(f'history: {"fails" if ce else "accepted"} ({type(ce or re_).__name__})', f'release: {re_!r:.300}; now: {ce!r:.300}', spec=replay)
        return
    # the same problems as in the reference
    for (op, x, _), (_, y, _) in zip(r, c):
        if op == 'save':
            continue
        for i, (u, v) in enumerate(zip(*[t if isinstance(t, tuple) else (t,) for t in (x, y)])):
            bad, n = diff.compare_values(vp.observe(u), vp.observe(v))
            rec.event('history value comparison', n)
            for nm, d, vw in bad[:1]:
                rec.violation(f'{op}: {diff_name(nm)} differs from the reference', f'{len(bad)} of {n} values differ; {nm}: {vw and (diff._short(vw[0]), diff._short(vw[1]))}', spec=replay)
            for key, k, v1, v2 in diff.compare_problem(vp.observe_opt(u), vp.observe_opt(v))[:3]:
                rec.violation(f'{op}: {key[0]} {diff_name(str(key[1]))} {k}', f'{v1!r} in the reference, {v2!r}', spec=replay)


def same_entry(a, b):
    if a is None or b is None or a[1] != b[1]:
        return False
    if a[0] == b[0]:
        return True
    try:
        return bool(np.allclose(np.ravel(np.asarray(a[0], float)), np.ravel(np.asarray(b[0], float)), rtol=1e-12))
    except (TypeError, ValueError):
        # a list of one text or enumeration may come back without the list
        return np.ravel(a[0]).tolist() == np.ravel(b[0]).tolist()


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one problem, sized (its gross masses set as an optimizer would), and a history of saving, reloading, off-design missions and payload-range '
                'analyses starting from it; after every operation the problem is compared with what it was, the file or new problem with the independent oracle and the reference')
    n = chk.pick({'ES': 26, '2DOF': 5, 'S2DOF': 2}, {'ES': 700, '2DOF': 120, 'S2DOF': 40})
    it = [(eom, [chk.seed, ms.hash_of('M07'), ms.hash_of(eom), i]) for eom in ('2DOF', 'ES', 'S2DOF') for i in range(n[eom])]
    chk.pmap(worker, it, timeout=chk.pick(200, 400))
    chk.require('non-interference', 25)
    chk.require('saved input', 500)
    chk.require('reloaded input', 300)
    chk.require('inherited input', 300)
    chk.require('payload-range value', 9)
