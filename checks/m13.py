"""One call, or one command line, does what the steps do: run_aviary, `aviary run_mission`, run_aviary_problem."""
import contextlib
import copy
import importlib
import os
import pickle
import shutil
import sys
import tempfile
from enum import Enum
from pathlib import Path

import numpy as np
import openmdao.api as om

from vlib import diff, extsub, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import CaseTimeout, eval_limit


class StandIn(om.ScipyOptimizeDriver):
    """Takes the place of the pyOptSparse driver (not installed): keeps the options and settings it is given."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.opt_settings = {}

    def _declare_options(self):
        super()._declare_options()
        self.options.undeclare('optimizer')
        self.options.declare('optimizer', default='SLSQP', types=str)
        self.options.declare('print_results', default=True, allow_none=True)
        self.options.declare('print_opt_prob', default=False)


class Result:
    success = True
    exit_status = 'SUCCESS'
    iter_count = 0
    model_evals = deriv_evals = obj_calls = 0
    runtime = 0.0


@contextlib.contextmanager
def watched(pkg):
    """What run_aviary_problem asks dymos and OpenMDAO to do, recorded; the optimizer itself is replaced by one run of the model."""
    ap = importlib.import_module(pkg + '.core.aviary_problem')
    log = []
    real_run, real_n2, real_drv = ap.dm.run_problem, om.n2, om.pyOptSparseDriver
    real_rm = ap.AviaryProblem.run_model

    def run_problem(problem, *a, **kw):
        log.append(('optimize', problem, a, kw))
        problem.set_solver_print(-1)
        real_rm(problem)
        return Result()

    def run_model(self, *a, **kw):
        log.append(('single pass', self, a, kw))
        self.set_solver_print(-1)
        return real_rm(self, *a, **kw)

    def n2(*a, **kw):
        log.append(('n2', a[0] if a else None, a, kw))

    ap.dm.run_problem, om.n2, om.pyOptSparseDriver = run_problem, n2, StandIn
    ap.AviaryProblem.run_model = run_model
    try:
        yield log
    finally:
        ap.dm.run_problem, om.n2, om.pyOptSparseDriver = real_run, real_n2, real_drv
        ap.AviaryProblem.run_model = real_rm


def text_of(v):
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, Enum):
        return None
    if isinstance(v, (int, float, np.integer, np.floating)):
        return repr(v.item() if hasattr(v, 'item') else v)
    if isinstance(v, (list, tuple, np.ndarray)):
        t = [text_of(x) for x in np.ravel(v).tolist()]
        return None if any(x is None for x in t) or len(t) < 2 else '[' + ', '.join(t) + ']'
    return None


def deck_file(pkg, spec, folder):
    """The vehicle of a specification as a file: the deck with its changes appended."""
    lines = Path(vp.deck_path(pkg, spec['deck'])).read_text().rstrip('\n').splitlines()
    lines = [x for x in lines if x.split(',')[0].strip() not in spec.get('drop', ())]
    for n, (v, u) in spec.get('values', {}).items():
        lines = [x for x in lines if x.split(',')[0].strip() != n]
        lines.append(f'{n}, {text_of(v)}, {u}')
    p = Path(folder) / f'vehicle_{os.getpid()}.csv'
    p.write_text('\n'.join(lines) + '\n')
    return p


def phase_file(pi, folder):
    n = Path(folder) / f'phases_{os.getpid()}'
    pickle.dump(pi, open(f'{n}.pkl', 'wb'))
    Path(f'{n}.py').write_text(f'import pickle\nwith open({str(n) + ".pkl"!r}, "rb") as f:\n    phase_info = pickle.load(f)\n')
    return f'{n}.py'


def steps(pkg, data, pi, c, external, modifier, name):
    """The same problem by the documented steps."""
    api = importlib.import_module(pkg + '.api')
    p = api.AviaryProblem(name=name, verbosity=c['verbosity'])
    p.load_inputs(data, pi, phase_info_modifier=modifier)
    if external:
        p.load_external_subsystems([f(pkg) for f in external])
    p.check_and_preprocess_inputs()
    p.add_pre_mission_systems()
    p.add_phases()
    p.add_post_mission_systems()
    p.link_phases()
    p.add_driver(c['optimizer'], max_iter=c['max_iter'])
    p.add_design_variables()
    p.add_objective(c['objective'])
    p.setup()
    p.run_model()
    return p


def driver_facts(p):
    d = p.driver
    o = {k: d.options[k] for k in ('optimizer', 'disp', 'tol', 'maxiter', 'debug_print', 'print_results') if k in d.options}
    return {'kind': type(d).__name__, **{k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in o.items()},
            'settings': dict(getattr(d, 'opt_settings', {})), 'coloring': d._coloring_info.dynamic}


def make(rng, kind):
    eom = str(rng.choice(['ES', 'ES', 'ES', '2DOF', 'S2DOF'], p=[.25, .25, .2, .2, .1]))
    spec, labels = ms.make_spec(rng, eom, int(rng.integers(0, 3)))
    spec['values'] = {n: v for n, v in spec.get('values', {}).items() if text_of(v[0]) is not None}
    c = {'kind': kind, 'eom': eom,
         'optimizer': rng.choice(['SLSQP', 'IPOPT', 'SNOPT', None, 'default'], p=[.3, .25, .2, .1, .15]),
         'max_iter': int(rng.integers(1, 200)) if rng.random() < 0.8 else 'default',
         'verbosity': int(rng.choice([0, 1, 2, 3])) if rng.random() < 0.8 else 'default',
         'phases': str(rng.choice(['file', 'dict', 'none'], p=[.45, .45, .1])),
         'data': str(rng.choice(['str', 'path', 'values']))}
    if kind == 'command':
        c['data'] = 'str'
        c['phases'] = 'none' if c['phases'] == 'none' else 'file'
    c['optimizer'] = None if c['optimizer'] is None else str(c['optimizer'])
    if kind == 'call':
        c['run_driver'] = bool(rng.random() < 0.6)
        c['make_plots'] = bool(rng.random() < 0.5)
        c['restart'] = 'a_restart.db' if rng.random() < 0.4 else None
        c['objective'] = str(rng.choice(['mass', 'fuel', 'fuel_burned', 'time'])) if rng.random() < 0.5 else None
        c['modifier'] = bool(rng.random() < 0.3)
        c['external'] = bool(rng.random() < 0.25)
    if kind == 'problem':
        c['run_driver'] = bool(rng.random() < 0.6)
        c['make_plots'] = bool(rng.random() < 0.5)
        c['simulate'] = bool(rng.random() < 0.4)
        c['restart'] = 'a_restart.db' if rng.random() < 0.4 else None
        c['objective'] = None
    if c['phases'] == 'none' and eom != 'ES':
        c['phases'] = 'dict' if kind != 'command' else 'file'
    return spec, labels, c


def worker(rec, item):
    kind, seed = item
    rng = np.random.default_rng(seed)
    pkg = 'aviary'
    spec, labels, c = make(rng, kind)
    home = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='m13_')
    os.chdir(tmp)
    os.environ['OPENMDAO_WORKDIR'] = tmp
    replay = {'spec': spec, 'call': c, 'seed': list(map(int, seed))}
    rec.case(ms.diff_key(kind, {'s': spec, 'c': c}, labels), {'deck': spec['deck'], 'call': c, 'labels': labels})
    try:
        with eval_limit(150), vp.quiet():
            one(rec, rng, pkg, spec, c, tmp, replay)
    except CaseTimeout:
        raise
    except TimeoutError:
        rec.skip('took too long')
    except Exception as e:
        if type(e).__name__ == 'EvalTimeout':
            rec.skip('took too long')
        else:
            raise
    finally:
        os.chdir(home)
        os.environ.pop('OPENMDAO_WORKDIR', None)
        shutil.rmtree(tmp, ignore_errors=True)


def one(rec, rng, pkg, spec, c, tmp, replay):
    api = importlib.import_module(pkg + '.api')
    csv = deck_file(pkg, spec, tmp)
    pi = vp.conv(spec['phase_info'], pkg)
    external = []
    if c.get('external'):
        d = extsub.declare(rng, 'ext_a', c['eom'], ms.phases_of(spec), [n for n in ms.phases_of(spec) if getattr(pi[n]['user_options'].get('phase_type'), 'name', '') in ('BREGUET_RANGE', 'SIMPLE_CRUISE')])
        external = [extsub.Factory(d)]
    calls = []
    modifier = None
    if c.get('modifier'):
        first = ms.phases_of(spec)[0]

        def modifier(phase_info, post_mission_info, aviary_inputs):
            calls.append((list(phase_info), len(aviary_inputs.keys()) if hasattr(aviary_inputs, 'keys') else len(aviary_inputs)))
            q = copy.deepcopy(phase_info)
            for i, n in enumerate(q):
                o = q[n]['user_options']
                if 'time_duration_bounds' in o and o['time_duration_bounds'][0] is not None and o['time_duration_bounds'][0][1] is not None:
                    (a, b), u = o['time_duration_bounds']
                    o['time_duration_bounds'] = ((a, b + 7.0), u)
            return q, post_mission_info

    def phases(how):
        if how == 'none':
            return None
        return phase_file(pi, tmp) if how == 'file' else copy.deepcopy(pi)

    def data(how):
        if how == 'values':
            return vp_vehicle(pkg, csv)
        return str(csv) if how == 'str' else Path(csv)

    given = {k: c[k] for k in ('optimizer', 'max_iter', 'verbosity') if c[k] != 'default'}
    name = csv.stem if c['data'] != 'values' else None
    # what the steps make of it, with the documented defaults
    if c['kind'] == 'command':
        eff = {'optimizer': given.get('optimizer', 'IPOPT'), 'max_iter': given.get('max_iter', 50), 'verbosity': given.get('verbosity', 1), 'objective': None}
        run = {'run_driver': True, 'make_plots': True, 'restart': None, 'simulate': False}
    else:
        eff = {'optimizer': given.get('optimizer', None), 'max_iter': given.get('max_iter', 50), 'verbosity': given.get('verbosity', None), 'objective': c.get('objective')}
        run = {'run_driver': c['run_driver'], 'make_plots': c['make_plots'], 'restart': c['restart'], 'simulate': c.get('simulate', False)}
    want = err = None
    with watched(pkg):
        try:
            want = steps(pkg, data(c['data']), phases('none' if c['phases'] == 'none' else 'dict'), eff, external, modifier, name)
        except CaseTimeout:
            raise
        except Exception as e:
            if type(e).__name__ == 'EvalTimeout':
                raise
            err = e
    base = (vp.observe(want), vp.observe_opt(want), driver_facts(want), want.aviary_inputs, want._name) if want is not None else None
    n_mod = len(calls)
    with watched(pkg) as log:
        got = gerr = None
        try:
            if c['kind'] == 'command':
                argv = ['aviary', 'run_mission', str(csv)]
                for k, v in given.items():
                    argv += [f'--{k}', str(v)]
                if c['phases'] != 'none':
                    argv += ['--phase_info', phases('file')]
                if rng.random() < 0.5:
                    argv = argv[:2] + argv[3:] + argv[2:3]
                old, sys.argv = sys.argv, argv
                try:
                    importlib.import_module(pkg + '.interface.cmd_entry_points').aviary_cmd()
                finally:
                    sys.argv = old
                got = next((x[1] for x in log if x[0] in ('optimize', 'single pass')), None)
            elif c['kind'] == 'call':
                kw = dict(given)
                if c['objective']:
                    kw['objective_type'] = c['objective']
                if external:
                    kw['subsystems'] = [f(pkg) for f in external]
                if c['restart']:
                    kw['restart_filename'] = c['restart']
                if modifier:
                    kw['phase_info_modifier'] = modifier
                got = api.run_aviary(data(c['data']), phases(c['phases']), run_driver=c['run_driver'], make_plots=c['make_plots'], **kw)
            else:
                got = build_only(pkg, data(c['data']), phases(c['phases']), eff, name)
                got.run_aviary_problem(restart_filename=c['restart'], run_driver=c['run_driver'], simulate=c['simulate'], make_plots=c['make_plots'])
        except CaseTimeout:
            raise
        except (Exception, SystemExit) as e:
            if type(e).__name__ == 'EvalTimeout':
                raise
            gerr = e
    if err is not None or gerr is not None:
        if err is not None and gerr is not None:
            rec.skip('rejected')
            rec.event('rejected alike')
        elif gerr is not None:
            rec.violation(f'{c["kind"]}: fails', f'{gerr!r:.300}; the steps do not', case=replay)
        else:
            rec.violation(f'{c["kind"]}: has to be rejected', f'the steps raise {err!r:.300}', case=replay)
        return
    tag = c['kind']
    if got is None:
        rec.violation(f'{tag}: nothing is run', '', case=replay)
        return
    # what was run, and how
    runs = [x for x in log if x[0] in ('optimize', 'single pass')]
    rec.event('run as asked')
    if [x[0] for x in runs] != ['optimize' if run['run_driver'] else 'single pass'] or runs[0][1] is not got:
        rec.violation(f'{tag}: not run as asked', f'run_driver={run["run_driver"]}: {[x[0] for x in runs]}', case=replay)
    elif run['run_driver']:
        kw = runs[0][3]
        for k, w, dflt in (('restart', run['restart'], None), ('make_plots', run['make_plots'], False), ('simulate', run['simulate'], False), ('run_driver', True, True)):
            rec.event('run argument')
            if kw.get(k, dflt) != w:
                rec.violation(f'{tag}: {k}', f'{k}={w!r} reaches the run as {kw.get(k, dflt)!r}', case=replay)
    if not [x for x in log if x[0] == 'n2']:
        rec.violation(f'{tag}: no model diagram', '', case=replay)
    if run['run_driver'] and getattr(got, 'result', None) is None:
        rec.violation(f'{tag}: no result', '', case=replay)
    rec.event('driver facts')
    f = driver_facts(got)
    if f != base[2]:
        d = {k: (f.get(k), base[2].get(k)) for k in set(f) | set(base[2]) if f.get(k) != base[2].get(k)}
        rec.violation(f'{tag}: another driver', f'{d}', case=replay)
    own = eff['optimizer'] or 'IPOPT'
    it = f['settings'].get({'IPOPT': 'max_iter', 'SNOPT': 'Major iterations limit'}.get(own), f.get('maxiter'))
    if f['optimizer'] != own or it != eff['max_iter']:
        rec.violation(f'{tag}: optimizer or iteration limit', f'{f["optimizer"]} with {it} iterations for {own} with {eff["max_iter"]}', case=replay)
    if eff['verbosity'] is not None and int(got.verbosity) != eff['verbosity']:
        rec.violation(f'{tag}: verbosity', f'{got.verbosity} for {eff["verbosity"]}', case=replay)
    rec.event('name')
    if name is not None and c['kind'] != 'problem' and not str(got._name).startswith(name):
        rec.violation(f'{tag}: name', f'{got._name} for {csv.name}', case=replay)
    if modifier is not None:
        rec.event('modifier')
        if len(calls) != 2 * n_mod or calls[:n_mod] != calls[n_mod:]:
            rec.violation(f'{tag}: modifier of the phases', f'called {calls[n_mod:]}, by the steps {calls[:n_mod]}', case=replay)
    # inputs
    a, b = base[3], got.aviary_inputs
    rec.event('input', len(list(a.keys())))
    bad = [n for n in a.keys() if n not in b or not _same(a.get_item(n), b.get_item(n))] + [n for n in b.keys() if n not in a]
    bad = [n for n in bad if n != 'settings:verbosity' or eff['verbosity'] is not None]
    if bad:
        rec.violation(f'{tag}: other inputs', f'{bad[:5]}', case=replay)
    # the problem
    v, o = vp.observe(got), vp.observe_opt(got)
    if set(v) != set(base[0]):
        rec.violation(f'{tag}: other variables', f'{sorted(set(v) ^ set(base[0]))[:6]}', case=replay)
    rec.event('value comparison', len(v))
    bad = []
    for n in set(v) & set(base[0]):
        d = diff.difference(base[0][n][0], v[n][0])
        if not (d <= 1e-9 or np.allclose(base[0][n][0], v[n][0], rtol=0, atol=1e-9)) or v[n][1] != base[0][n][1]:
            bad.append((n, d))
    if bad:
        bad.sort(key=lambda x: -x[1])
        rec.violation(f'{tag}: another {diff.phase_free(bad[0][0])}', f'{len(bad)} values differ: {bad[:5]}', case=replay)
    rec.event('driver problem comparison', len(o))
    bp = diff.compare_problem(base[1], o)
    if bp:
        rec.violation(f'{tag}: another optimization problem', f'{bp[:4]}', case=replay)
    rec.seen('calls', f'{tag} {c["data"]} {c["phases"]} {c["optimizer"]} {c["verbosity"]} driver={run["run_driver"]}')


def vp_vehicle(pkg, csv):
    return importlib.import_module(pkg + '.utils.process_input_decks').create_vehicle(str(csv))[0]


def build_only(pkg, data, pi, c, name):
    api = importlib.import_module(pkg + '.api')
    p = api.AviaryProblem(name=name, verbosity=c['verbosity'])
    p.load_inputs(data, pi)
    p.check_and_preprocess_inputs()
    p.build_model()
    p.add_driver(c['optimizer'], max_iter=c['max_iter'])
    p.add_design_variables()
    p.add_objective(c['objective'])
    p.setup()
    return p


def _same(a, b):
    (v, u), (w, x) = a, b
    if u != x:
        return False
    try:
        return bool(np.all(np.asarray(v) == np.asarray(w))) and np.shape(v) == np.shape(w)
    except Exception:
        return v == w


def run(chk):
    import aviary.api, aviary_ref.api  # noqa
    import aviary.interface.cmd_entry_points  # noqa

    chk.rule = ('one case is one problem given as files and objects to the command line, to run_aviary or to run_aviary_problem, with random arguments, and built again by the '
                'documented steps: what is handed to the optimizer (replaced by one run of the model), driver, inputs, every value and the optimization problem are compared')
    counts = chk.pick({'command': 17, 'call': 20, 'problem': 8}, {'command': 600, 'call': 800, 'problem': 250})
    it = [(k, [chk.seed, ms.hash_of('M13'), ms.hash_of(k), i]) for k, n in counts.items() for i in range(n)]
    chk.pmap(worker, it, timeout=200)
    for m, n in (('run as asked', 20), ('run argument', 45), ('driver facts', 20), ('input', 2000), ('value comparison', 10000), ('driver problem comparison', 100)):
        chk.require(m, n)
