"""Results depend only on the inputs of the problem itself."""
import copy
import importlib
import os
import pickle
import signal
import sys
import tempfile
import types
from enum import Enum
from pathlib import Path

import numpy as np

from vlib import diff, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import eval_limit

RTOL = 1e-9


# ------------------------------------------------------------------ a fresh process
def forked(fn, *args, limit=150):
    """fn(*args) in a forked child of this (pristine) process; (result, error text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            d = tempfile.mkdtemp(prefix='m08_')
            os.chdir(d)
            try:
                with vp.quiet(), eval_limit(limit):
                    out = ('ok', fn(*args))
            except BaseException as e:  # the child only reports
                out = ('error', (type(e).__name__, str(e)[:400]))
            import shutil

            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        return 'error', ('Died', 'the child died')
    return pickle.loads(data)


# ------------------------------------------------------------------ what must not change
def fingerprint(x, depth=0):
    """A comparable picture of any data."""
    if depth > 9:
        return '...'
    if isinstance(x, (type(None), bool, int, float, complex, str, bytes)):
        return x if x == x else 'nan'
    if isinstance(x, Enum):
        return str(x)
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, x.shape, x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Path):
        return str(x)
    if isinstance(x, dict):
        return ('dict', tuple((fingerprint(k, depth + 1), fingerprint(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fingerprint(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if hasattr(x, 'get_item') and hasattr(x, 'items'):
        try:
            return ('values', tuple((k, fingerprint(v, depth + 1)) for k, v in x))
        except Exception:
            return type(x).__name__
    if isinstance(x, type) or callable(x):
        return getattr(x, '__qualname__', type(x).__name__)
    return type(x).__name__


def data_like(x):
    return isinstance(x, (dict, list, set, np.ndarray)) or (hasattr(x, 'get_item') and hasattr(x, 'items') and not isinstance(x, type))


def globals_of(pkg):
    """{where: data} of module data, class attributes and default arguments of the package."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if not (name == pkg or name.startswith(pkg + '.')) or mod is None or '.test' in name:
            continue
        short = name[len(pkg):]
        for k, v in list(vars(mod).items()):
            if k.startswith('__') or k == '_default_reports':  # (the list OpenMDAO asks its users to extend)
                continue
            if data_like(v):
                out[f'{short}:{k}'] = v
            elif isinstance(v, types.FunctionType) and v.__module__ == name:
                defaults(out, f'{short}:{k}', v)
            elif isinstance(v, type) and v.__module__ == name and not issubclass(v, Enum):
                for kk, vv in list(vars(v).items()):
                    if kk.startswith('__') and kk != '__init__':
                        continue
                    f = vv.__func__ if isinstance(vv, (staticmethod, classmethod)) else vv
                    if isinstance(f, types.FunctionType):
                        defaults(out, f'{short}:{k}.{kk}', f)
                    elif data_like(vv):
                        out[f'{short}:{k}.{kk}'] = vv
    return out


def defaults(out, where, f):
    for i, d in enumerate(f.__defaults__ or ()):
        if data_like(d):
            out[f'{where} default {i}'] = d
    for n, d in (f.__kwdefaults__ or {}).items():
        if data_like(d):
            out[f'{where} default {n}'] = d


def prints(pkg):
    import hashlib

    return {k: hashlib.sha1(repr(fingerprint(v)).encode()).hexdigest() for k, v in globals_of(pkg).items()}


def surroundings():
    return {'directory': os.getcwd(), 'path': list(sys.path), 'numpy errors': np.geterr(), 'print options': fingerprint({k: str(v) for k, v in np.get_printoptions().items()})}


# ------------------------------------------------------------------ histories
def steps(pkg, spec, data, phase_info, upto, out, verbosity, level_args):
    """The level-2 sequence, one step at a time."""
    api = importlib.import_module(pkg + '.api')
    p = api.AviaryProblem(problem_type=vp.conv(spec['problem_type'], pkg) if spec.get('problem_type') else None, verbosity=verbosity)
    out['prob'] = p
    yield
    kw = {'verbosity': level_args} if level_args is not None else {}
    p.load_inputs(data, phase_info, **kw)
    yield
    p.check_and_preprocess_inputs(**kw)
    yield
    p.add_pre_mission_systems(**kw)
    yield
    if upto == 'premission':
        p.setup(**kw)
        p.set_solver_print(-1)
        yield
        p.run_model()
        return
    p.add_phases(**kw)
    yield
    p.add_post_mission_systems(**kw)
    yield
    p.link_phases(**kw)
    yield
    p.add_driver('SLSQP', max_iter=spec.get('max_iter', 30), **kw)
    yield
    p.add_design_variables(**kw)
    yield
    p.add_objective(**kw)
    yield
    p.setup(**kw)
    yield
    p.set_initial_guesses(**kw)
    p.set_solver_print(-1)
    yield
    if upto == 'run':
        p.run_model()
    else:
        p.final_setup()


def materials(pkg, spec, how):
    """The arguments of a caller."""
    if how['data'] == 'path' and not spec.get('values') and not spec.get('drop'):
        data = vp.deck_path(pkg, spec['deck'])
    else:
        data, _ = vp.vehicle(pkg, spec['deck'])
        for n, (v, u) in spec.get('values', {}).items():
            data.set_val(n, vp.conv(v, pkg), u)
    pi = vp.conv(spec['phase_info'], pkg) if spec.get('phase_info') is not None else None
    if how['phases'] == 'file' and pi is not None:
        n = f'phases_{os.getpid()}_{len(os.listdir("."))}'
        pickle.dump(pi, open(n + '.pkl', 'wb'))
        Path(n + '.py').write_text(f'import pickle\nwith open({str(Path(n + ".pkl").resolve())!r}, "rb") as f:\n    phase_info = pickle.load(f)\n')
        pi = str(Path(n + '.py').resolve())
    return data, pi


def finish(gen_):
    for _ in gen_:
        pass


def results(p, upto):
    return {'values': vp.observe(p), 'driver': {k: {a: fingerprint(b) for a, b in v.items()} for k, v in vp.observe_opt(p).items()} if upto != 'premission' else {}}


def baseline(pkg, spec, upto):
    how = {'data': 'values', 'phases': 'dict'}
    data, pi = materials(pkg, spec, how)
    out = {}
    finish(steps(pkg, spec, data, pi, upto, out, 0, None))
    return results(out['prob'], upto)


def history(pkg, spec, upto, others, plan):
    """Run the problem after, between and before others; returns its results every time, and what changed meanwhile."""
    rng = np.random.default_rng(plan['seed'])
    notes, runs = [], []
    g0, s0 = prints(pkg), surroundings()
    args = []  # (what, object, picture)

    def keep(what, data, pi):
        for w, o in ((what + ' data', data), (what + ' phase_info', pi)):
            if not isinstance(o, str) and o is not None and not any(o is a[1] for a in args):
                args.append((w, o, fingerprint(o)))

    def look(after):
        for i, (w, o, f) in enumerate(args):
            if fingerprint(o) != f:
                notes.append((f'{w} of the caller is modified', f'after {after}: {where(f, fingerprint(o))}'))
                args[i] = (w, o, fingerprint(o))

    shared = None
    for act in plan['acts']:
        if act['kind'] == 'other':
            o = others[act['which']]
            data, pi = materials(pkg, o['spec'], act['how'])
            keep('other', data, pi)
            out = {}
            try:
                finish(steps(pkg, o['spec'], data, pi, act['upto'], out, act['verbosity'], None))
            except Exception:
                pass  # the other problem is its own business
            look('another problem')
        elif act['kind'] in ('self', 'mixed'):
            if act['same_objects'] and shared is not None:
                data, pi = shared
            else:
                data, pi = materials(pkg, spec, act['how'])
            shared = data, pi
            keep('problem', data, pi)
            out = {}
            g = steps(pkg, spec, data, pi, upto, out, act['verbosity'], act['level'])
            if act['kind'] == 'mixed':
                o = others[act['which']]
                d2, p2 = materials(pkg, o['spec'], act['how'])
                keep('other', d2, p2)
                h = steps(pkg, o['spec'], d2, p2, act['upto'], {}, act['verbosity'], None)
                live, broken = True, False
                while live:
                    if rng.random() < 0.5 and not broken:
                        try:
                            for _ in range(int(rng.integers(1, 4))):
                                next(h)
                        except Exception:
                            broken = True
                        except StopIteration:
                            broken = True
                    try:
                        next(g)
                    except StopIteration:
                        live = False
            else:
                finish(g)
            look('the problem')
            runs.append((act['kind'] + (' same objects' if act['same_objects'] else '') + f' verbosity {act["verbosity"]}', results(out['prob'], upto)))
            if act.get('again') and upto in ('run', 'premission'):
                out['prob'].run_model()
                runs.append(('run again', results(out['prob'], upto)))
                look('running again')
    g1, s1 = prints(pkg), surroundings()
    for k in g0:
        if k in g1 and g0[k] != g1[k]:
            notes.append((f'global data {k} changed', 'while problems were built and run'))
    for k in s0:
        if s0[k] != s1[k]:
            notes.append((f'{k} of the process changed', f'{str(s0[k])[:150]} -> {str(s1[k])[:150]}'))
    return runs, notes, sorted(g0)


def where(a, b, path=''):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                k = x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else i
                return where(x, y, f'{path}/{k}')
    return f'{path}: {str(a)[:120]} -> {str(b)[:120]}'


STEADY = diff.re.compile(r'^(aircraft:|mission:(?!constraints)|traj\.[^.]+\.(timeseries\.|states:|t$|t_))')


def plan_for(rng, kinds):
    acts = []
    n = int(rng.integers(2, 4))
    for i in range(n):
        r = rng.random()
        how = {'data': str(rng.choice(['values', 'path'])), 'phases': str(rng.choice(['dict', 'dict', 'file']))}
        v = int(rng.choice([0, 0, 1, 2, 3]))
        up = str(rng.choice(['premission', 'guess', 'run']))
        if r < 0.35:
            acts.append({'kind': 'other', 'which': int(rng.integers(0, 2)), 'how': how, 'verbosity': v, 'upto': up})
        else:
            acts.append({'kind': 'mixed' if r < 0.6 else 'self', 'which': int(rng.integers(0, 2)), 'how': how, 'verbosity': v, 'upto': up,
                         'level': int(rng.integers(0, 4)) if rng.random() < 0.25 else None, 'same_objects': bool(rng.random() < 0.5), 'again': bool(rng.random() < 0.35)})
    if not any(a['kind'] != 'other' for a in acts):
        acts.append({'kind': 'self', 'how': {'data': 'values', 'phases': 'dict'}, 'verbosity': 1, 'level': None, 'same_objects': False, 'again': True})
    return {'seed': int(rng.integers(0, 2**31)), 'acts': acts}


def one_spec(rng, kind):
    """A problem, sometimes with nothing but a deck and the default mission."""
    if kind == 'S2DOF':
        spec, labels = ms.make_spec(rng, kind, 0)
    else:
        spec, labels = ms.make_spec(rng, kind, int(rng.integers(0, 2)), perturb=int(rng.choice([0, 2])))
    if rng.random() < 0.3 and kind != 'S2DOF' and not spec.get('problem_type'):
        spec['phase_info'] = None
        labels = ['default mission', *labels]
    return spec, labels


def worker(rec, item):
    kind, seed = item
    rng = np.random.default_rng(seed)
    spec, labels = one_spec(rng, kind)
    others = []
    for _ in range(2):
        k = str(rng.choice(['ES', 'ES', '2DOF', 'S2DOF']))
        s, lb = one_spec(rng, k)
        others.append({'spec': s, 'labels': lb})
    if rng.random() < 0.5:
        # much the same problem, with a few other inputs
        others[0] = {'spec': {**copy.deepcopy(spec), 'values': {**spec.get('values', {}), **gen.perturb_deck(rng, spec['deck'], 3)}}, 'labels': ['sibling']}
    upto = str(rng.choice(['run', 'guess', 'premission', 'run']))
    plan = plan_for(rng, kind)
    replay = {'spec': spec, 'others': others, 'upto': upto, 'plan': plan}
    rec.case(ms.diff_key(kind, replay, labels), {'deck': spec['deck'], 'plan': plan})
    st, base = forked(baseline, 'aviary', spec, upto)
    if st == 'error':
        rec.stat('baseline fails: ' + base[0])
        rec.skip('the problem alone is rejected')
        return
    st, h = forked(history, 'aviary', spec, upto, others, plan, limit=240)
    if st == 'error':
        if h[0] in ('EvalTimeout', 'Died', 'CaseTimeout'):
            rec.skip('history took too long')
            return
        rec.violation(f'the problem fails among others ({h[0]})', f'{h[1]}; alone it does not', spec=replay)
        return
    runs, notes, watched = h
    rec.stat('global data watched', len(watched))
    rec.event('arguments and globals unchanged', len(watched))
    for mech, msg in notes:
        rec.violation(mech, msg, spec=replay)
    for what, r in runs:
        again = what == 'run again'
        rec.seen('ways', what)
        a, b = base['values'], r['values']
        if set(a) != set(b):
            d = sorted(set(a) ^ set(b))
            rec.violation(f'{what}: other variables', f'{d[:6]}', spec=replay)
            continue
        rec.event('repeated value', len(a))
        bad = []
        for n, (v, u) in a.items():
            if 'AIRCRAFT_DATA_OVERRIDE' in n or (again and not STEADY.match(n)):
                continue
            d = diff.difference(v, b[n][0])
            if d > (1e-6 if again else RTOL) and not np.allclose(v, b[n][0], rtol=0, atol=1e-9):
                bad.append((n, d, (v, b[n][0])))
            elif u != b[n][1]:
                bad.append((n, 'units', None))
        if bad and again:
            bad = settle(rec, spec, upto, bad, rng)
        if bad:
            rec.violation(f'{"running again" if again else "among other problems"}: another {diff.phase_free(bad[0][0])}',
                          f'{what}: {len(bad)} values differ: ' + ', '.join(f'{n}: {d} {vw and (diff._short(vw[0]), diff._short(vw[1]))}' for n, d, vw in bad[:4]), spec=replay)
        if r['driver'] and r['driver'] != base['driver']:
            k = [k for k in set(base['driver']) | set(r['driver']) if base['driver'].get(k) != r['driver'].get(k)]
            rec.violation(f'{what}: another optimization problem', f'{k[:5]}', spec=replay)


def settle(rec, spec, upto, bad, rng):
    """Leave out what solvers leave open: the reference, started a hair away, moves it as well."""
    st, base = forked(wiggle, spec, upto, int(rng.integers(0, 2**31)))
    if st == 'error':
        rec.skip('convergence is fragile')
        return []
    keep = []
    for n, d, vw in bad:
        s = diff.difference(vw[0], base[n]) if n in base and n in base else 0.0
        if d != 'units' and d <= 100 * s:
            rec.skip('ill-conditioned value')
        else:
            keep.append((n, d, vw))
    return keep


def wiggle(spec, upto, seed):
    b = vp.build('aviary_ref', spec, 'guess' if upto == 'run' else 'premission_setup')
    diff.nudge(b, 1e-9, np.random.default_rng(seed))
    b.prob.set_solver_print(-1)
    b.prob.run_model()
    return {n: v for n, (v, u) in vp.observe(b.prob).items()}


def run(chk):
    import aviary.api, aviary_ref.api  # noqa
    import aviary.core.aviary_problem  # noqa

    # everything whose data is watched is imported before
    import pkgutil

    import aviary as pk

    with vp.quiet():
        for m in pkgutil.walk_packages(pk.__path__, 'aviary.'):
            if any(x in m.name for x in ('.test', 'examples', 'validation_cases', 'docs', '.run_all', 'run_file', '__main__', 'interface.cmd')):
                continue
            try:
                importlib.import_module(m.name)
            except BaseException:
                continue
    chk.rule = ('one case is one problem, first run alone in a fresh process and then in another one among other problems (before, after, interleaved step by step, at other '
                'verbosity, from files, from the same objects again); every value and the optimization problem have to be the same, and the arguments of the caller, '
                'all module, class and default-argument data of the package, and the process state unchanged')
    n = chk.pick({'ES': 34, '2DOF': 8, 'S2DOF': 3}, {'ES': 900, '2DOF': 160, 'S2DOF': 60})
    it = [(k, [chk.seed, ms.hash_of('M08'), ms.hash_of(k), i]) for k in ('2DOF', 'ES', 'S2DOF') for i in range(n[k])]
    chk.pmap(worker, it, timeout=chk.pick(330, 450))
    chk.require('repeated value', 10000)
    chk.require('arguments and globals unchanged', 1000)
