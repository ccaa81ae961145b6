"""Monitor: a whole problem observed in the package under test and in the reference is the same problem.

run_pair(rec, spec, upto, ...) builds the same specification in both packages and judges
  values   - every promoted quantity both have (and every public one the reference has),
  problem  - design variables, constraints and objectives as the driver sees them,
  rejects  - a specification the reference rejects has to be rejected and the other way round.
"""

import re

import numpy as np
from openmdao.utils.units import convert_units

from vlib import prob as vp
from vlib.core import CaseTimeout, EvalTimeout, eval_limit

RTOL = 1e-6
START = {'run': 'guess', 'opt': 'guess', 'premission': 'premission_setup'}
PUBLIC = re.compile(
    r'^(in:)?(aircraft:|mission:|dynamic:|settings:|gtow_|h_fit\.|'
    r'traj\.[^.]+\.(states:|control_values:|control_rates:|timeseries\.|t_duration|t_initial|t\b|'
    r'initial_states:|parameter_vals:|mission_bus_variables\.))'
)


class Outcome:
    def __init__(self):
        self.error = None
        self.stage = None
        self.b = None


def attempt(pkg, spec, upto, after=None, limit=90):
    """Build (quietly); errors are recorded, never raised."""
    o = Outcome()
    try:
        with eval_limit(limit), vp.quiet():
            o.b = vp.build(pkg, spec, upto)
            if after is not None:
                o.extra = after(o.b)
    except CaseTimeout:
        raise
    except EvalTimeout:
        o.error = TimeoutError('evaluation took too long')
    except Exception as e:
        o.error = e
    except SystemExit as e:
        o.error = e
    return o


def scale_of(*vs):
    s = 0.0
    for v in vs:
        v = np.asarray(v, float)
        v = np.abs(v[np.isfinite(v)])
        if v.size:
            s = max(s, float(v.max()))
    return s


def difference(a, b):
    """Largest difference of two arrays relative to their size; inf if one is not finite where the other is."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        if a.size != b.size:
            return np.inf
        b = b.reshape(a.shape)
    if a.dtype.kind not in 'fiubc' or b.dtype.kind not in 'fiubc':
        return 0.0 if np.all(a == b) else np.inf
    a = a.astype(float)
    b = b.astype(float)
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return np.inf
    if not fa.any():
        return 0.0
    d = np.abs(a[fa] - b[fa]).max()
    if d == 0:
        return 0.0
    return float(d / max(scale_of(a, b), 1e-8))


def to_units(val, u_from, u_to):
    if u_from == u_to or u_from is None or u_to is None:
        return val
    try:
        return convert_units(np.asarray(val, float), u_from, u_to)
    except Exception:
        return np.full(np.shape(val), np.inf)


def compare_values(ref, cand):
    """[(name, difference)] in the order of the reference model; also the number compared."""
    bad, n = [], 0
    for name, (v, u) in ref.items():
        if name not in cand:
            if PUBLIC.match(name):
                alt = name[3:] if name.startswith('in:') else 'in:' + name
                if alt not in cand:
                    bad.append((name, 'missing', None))
            continue
        n += 1
        w = to_units(cand[name][0], cand[name][1], u)
        d = difference(v, w)
        if not d <= RTOL:
            bad.append((name, d, (v, w)))
    return bad, n


def close(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            if a.size == 1 or b.size == 1:
                pass
            else:
                return False
        big = 1e29
        a, b = np.clip(a, -big, big), np.clip(b, -big, big)
        return bool(np.all(np.abs(a - b) <= 1e-9 + 1e-6 * np.maximum(np.abs(a), np.abs(b))))
    except (TypeError, ValueError):
        return a == b


INF = 1e25


def _norm(k, v):
    if k in ('lower', 'upper') and v is not None:
        v = np.asarray(v, float)
        if np.all(np.abs(v) > INF):
            return None
    return v


OWN = re.compile(r'^(aircraft:|mission:|dynamic:|traj\.|settings:)')


def _alike(m, c):
    return all(close(_norm(k, m.get(k)), _norm(k, c.get(k))) for k in m if k != 'linear')


def compare_problem(ref, cand):
    bad = []
    cand = dict(cand)
    # an internal name (not a variable of the hierarchy or of the trajectory) may be another one
    lost = [k for k in ref if k not in cand and not OWN.match(str(k[1]))]
    new = [k for k in cand if k not in ref and not OWN.match(str(k[1]))]
    for k in lost:
        for q in new:
            if q[0] == k[0] and q in cand and _alike(ref[k], cand[q]):
                cand[k] = cand.pop(q)
                new.remove(q)
                break
    for key, m in ref.items():
        if key not in cand:
            bad.append((key, 'missing', None, None))
            continue
        c = cand[key]
        for k in m:
            if k in ('scaler', 'adder') or k == 'linear':
                continue
            if not close(_norm(k, m[k]), _norm(k, c[k])):
                bad.append((key, k, m[k], c[k]))
        # the scaling the driver applies, however it was stated
        if not (close(m.get('scaler'), c.get('scaler')) and close(m.get('adder'), c.get('adder'))):
            bad.append((key, 'scaling', (m.get('scaler'), m.get('adder')), (c.get('scaler'), c.get('adder'))))
    for key in cand:
        if key not in ref:
            bad.append((key, 'extra', None, None))
    return bad


def nudge(b, eps, rng):
    """Move every value the model starts from by a relative eps (after final_setup)."""
    p = b.prob
    p.final_setup()
    o = p.model._outputs.asarray()
    p.model._outputs.set_val(o * (1 + eps * rng.choice([-1.0, 1.0], size=o.shape)))


def phase_free(name):
    return re.sub(r'traj\.[^.]+\.', 'traj.<phase>.', name)


def run_pair(rec, spec, upto, rng, what='problem', opt=True, values=True, limit=90, after=None, inputs=True, replay=None, cand_spec=None):
    """Build spec in both packages and judge; returns (ref outcome, cand outcome) or None."""
    r = attempt('aviary_ref', spec, upto, after, limit)
    if isinstance(r.error, TimeoutError):
        rec.skip('the reference took too long')
        return None
    c = attempt('aviary', cand_spec or spec, upto, after, limit)
    if isinstance(c.error, TimeoutError):
        rec.skip('took too long')
        return None
    replay = replay if replay is not None else spec
    if unsettled(r.error):
        rec.skip('the reference did not converge')
        return None
    if unsettled(c.error) and r.error is None:
        if fragile(spec, upto, rng, limit):
            rec.skip('convergence is fragile')
            return None
    if r.error is not None or c.error is not None:
        rec.event('rejection comparison')
        if r.error is not None and c.error is not None:
            rec.stat(f'both reject: {type(r.error).__name__}')
            return None
        if c.error is not None:
            rec.violation(f'{what}: a valid definition fails ({type(c.error).__name__})',
                          f'raises {c.error!r:.600}', spec=replay)
        else:
            rec.violation(f'{what}: a definition that has to be rejected is accepted ({type(r.error).__name__})',
                          f'the release rejects it with {r.error!r:.600}', spec=replay)
        return None
    ok = True
    if opt:
        a, b = vp.observe_opt(r.b.prob), vp.observe_opt(c.b.prob)
        rec.event('driver problem comparison', len(a))
        for key, k, v, w in compare_problem(a, b)[:6]:
            ok = False
            rec.violation(f'{what}: {key[0]} {phase_free(str(key[1]))} {k}',
                          f'{key[0]} {key[1]}: {k} should be {v!r}, is {w!r}', spec=replay)
    if values:
        a, b = vp.observe(r.b.prob, inputs), vp.observe(c.b.prob, inputs)
        bad, n = compare_values(a, b)
        rec.event('value comparison', n)
        if bad:
            bad = explain(rec, spec, upto, a, bad, rng, limit)
        if bad:
            ok = False
            first = ', '.join(
                f'{nm}: ' + ('missing' if d == 'missing' else f'{_short(vw[0])} expected, {_short(vw[1])} found') for nm, d, vw in bad[:4])
            rec.violation(f'{what}: {phase_free(bad[0][0])}', f'{len(bad)} of {n} observed values differ: {first}', spec=replay)
    return r, c


def unsettled(e):
    """A solver gave up: says nothing about the definition."""
    return e is not None and type(e).__name__ in ('AnalysisError', 'LinAlgError', 'RuntimeError', 'FloatingPointError') and (
        type(e).__name__ != 'RuntimeError' or 'onverge' in str(e) or 'ingular' in str(e))


def fragile(spec, upto, rng, limit):
    """Does the reference fail to converge when started a hair away?"""
    if upto not in ('run', 'premission'):
        return True
    for eps in (1e-9, 1e-7):
        try:
            with eval_limit(limit), vp.quiet():
                b = vp.build('aviary_ref', spec, START[upto])
                nudge(b, eps, rng)
                b.prob.set_solver_print(-1)
                b.prob.run_model()
        except CaseTimeout:
            raise
        except Exception:
            return True
    return False


def _short(v):
    v = np.asarray(v)
    return np.array2string(v.ravel()[:4], precision=8, threshold=6)


def explain(rec, spec, upto, a, bad, rng, limit):
    """Leave out differences the reference's own conditioning explains."""
    spread = {}
    for eps in (1e-9, 1e-9):
        try:
            with eval_limit(limit), vp.quiet():
                b = vp.build('aviary_ref', spec, START.get(upto, upto))
                if upto in ('run', 'premission'):
                    nudge(b, eps, rng)
                    b.prob.set_solver_print(-1)
                    b.prob.run_model()
            p = vp.observe(b.prob)
        except CaseTimeout:
            raise
        except Exception:
            continue
        for nm, d, vw in bad:
            if d == 'missing' or nm not in p:
                continue
            spread[nm] = max(spread.get(nm, 0.0), difference(a[nm][0], p[nm][0]))
    keep = []
    for nm, d, vw in bad:
        if d != 'missing' and d <= 100 * spread.get(nm, 0.0):
            rec.skip('ill-conditioned value')
            continue
        keep.append((nm, d, vw))
    return keep
