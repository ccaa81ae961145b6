"""Results do not depend on the units inputs are given in."""
import copy
import os
import re
from pathlib import Path

import numpy as np
from openmdao.utils.units import convert_units, is_compatible, valid_units

from vlib import aircraft as ac
from vlib import diff, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import CaseTimeout, eval_limit

FAM = [
    ['ft', 'm', 'km', 'NM', 'mi', 'inch', 'cm', 'nmi'], ['lbm', 'kg', 't', 'slug', 'g'], ['s', 'min', 'h'], ['kn', 'm/s', 'ft/s', 'km/h', 'ft/min'], ['deg', 'rad'],
    ['lbf', 'N', 'kN'], ['ft**2', 'm**2', 'inch**2'], ['ft**3', 'm**3', 'galUS', 'L'], ['lbf/ft**2', 'psi', 'Pa', 'psf', 'N/m**2'], ['lbm/ft**2', 'kg/m**2'],
    ['lbm/h', 'kg/s', 'lbm/s'], ['lbm/lbf', 'kg/N'], ['hp', 'kW', 'W'], ['rpm', 'rad/s', 'rev/s'], ['lbm/galUS', 'kg/m**3', 'lbm/ft**3'], ['1/ft', '1/m'],
    ['lbf/lbm', 'N/kg'], ['lbm*ft**2', 'kg*m**2'], ['lbm/hp', 'kg/kW'], ['deg/s', 'rad/s', 'deg/min'], ['1/h', '1/s', '1/min'], ['kW*h', 'J', 'kJ'], ['V', 'mV', 'kV'],
    ['lbf*ft', 'N*m'], ['m/s**2', 'ft/s**2'], ['lbm/ft', 'kg/m'], ['lbm/inch', 'kg/m'], ['deg/h', 'rad/s'], ['kW', 'hp'],
]


def family(u):
    if not isinstance(u, str) or u == 'unitless' or not valid_units(u) or u.startswith('deg') and u in ('degR', 'degF', 'degC', 'degK'):
        return []
    for f in FAM:
        if u in f or any(is_compatible(u, x) for x in f):
            return [x for x in f if valid_units(x) and is_compatible(u, x) and x != u]
    return []


def floats(v):
    if v is None or isinstance(v, (bool, str)):
        return v is None
    if isinstance(v, (list, tuple)):
        return len(v) > 0 and all(floats(x) for x in v) and any(x is not None for x in v)
    if isinstance(v, np.ndarray):
        return v.dtype.kind == 'f' and v.size > 0
    return isinstance(v, (float, np.floating)) or isinstance(v, (int, np.integer))


def shift(v, u, w):
    if v is None:
        return None
    if isinstance(v, tuple):
        return tuple(shift(x, u, w) for x in v)
    if isinstance(v, list):
        return [shift(x, u, w) for x in v]
    if isinstance(v, np.ndarray):
        return convert_units(v.astype(float), u, w)
    return float(convert_units(float(v), u, w))


def is_quantity(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], str) and not isinstance(x[0], (str, bool)) and bool(family(x[1])) and floats(x[0]) and x[0] is not None


def reexpress(rng, x, p, seen, path=''):
    """The same phase definition, quantities in other units."""
    if isinstance(x, dict):
        return {k: reexpress(rng, v, p, seen, f'{path}/{k}') for k, v in x.items()}
    if is_quantity(x) and rng.random() < p:
        w = str(rng.choice(family(x[1])))
        seen.append((path.split('/', 2)[-1], x[1], w))
        return (shift(x[0], x[1], w), w)
    return copy.copy(x) if isinstance(x, (list, dict)) else x


def new_values(rng, spec, p, seen):
    """Deck values in other units."""
    out = dict(spec.get('values', {}))
    md = gen.ref('variable_info.variable_meta_data', '_MetaData')
    for n, (v, u) in gen.deck_values(spec['deck']).items():
        v, u = out.get(n, (v, u))
        m = md.get(n, {})
        t = m.get('types', float)
        t = t if isinstance(t, tuple) else (t,)
        if float not in t and t != (None,) and m.get('types') is not None:
            continue
        if not floats(v) or not family(u) or rng.random() > p:
            continue
        w = str(rng.choice(family(u)))
        nv = shift(v, u, w)
        out[n] = (nv, w)
        seen.append((n, u, w))
    return out


def worker(rec, item):
    kind, seed = item
    rng = np.random.default_rng(seed)
    p = float(rng.choice([0.15, 0.5, 1.0]))
    seen = []
    if kind == 'aircraft':
        spec, labels, given = ac.spec_for(rng, perturb=int(rng.integers(0, 4)), options=int(rng.choice([0, 0, 1, 2])), overrides=int(rng.choice([0, 0, 2])))
        upto = 'premission'
    else:
        spec, labels = ms.make_spec(rng, kind, int(rng.integers(0, 4)))
        upto = 'run' if rng.random() < 0.6 else 'guess'
    other = copy.deepcopy(spec)
    other['values'] = new_values(rng, spec, p, seen)
    if spec.get('phase_info') is not None:
        other['phase_info'] = reexpress(rng, spec['phase_info'], p, seen)
    if not seen:
        rec.skip('nothing to re-express')
        return
    rec.case(ms.diff_key(kind, {'a': spec, 'b': other}, labels), {'deck': spec['deck'], 're-expressed': seen[:8]})
    for n, u, w in seen:
        rec.seen('re-expressed', re.sub(r'^[^/]*/', '', n) if '/' in n else n)
    rec.event('re-expressed input', len(seen))
    replay = {'spec': spec, 'other': other}
    a = diff.attempt('aviary', spec, upto, limit=90)
    if a.error is not None:
        rec.skip('not built: ' + type(a.error).__name__)
        return
    b = diff.attempt('aviary', other, upto, limit=90)
    if b.error is not None:
        if isinstance(b.error, diff.EvalTimeout | TimeoutError) or diff.unsettled(b.error):
            rec.skip('convergence')
            return
        rec.violation(f'{kind}: fails in other units ({type(b.error).__name__})', f'{b.error!r:.500}', spec=replay)
        return
    if kind != 'aircraft':
        with vp.quiet():
            x, y = vp.observe_opt(a.b.prob), vp.observe_opt(b.b.prob)
        rec.event('driver problem comparison', len(x))
        for key, k, v, w in problem_difference(x, y)[:5]:
            rec.violation(f'{kind}: {key[0]} {diff.phase_free(str(key[1]))} {k}', f'{key[1]}: {k} {v!r}, in other units {w!r}', spec=replay)
    x, y = vp.observe(a.b.prob), vp.observe(b.b.prob)
    # values nothing is driven by carry their own units; compare in the units of the first
    bad, n = diff.compare_values(x, y)
    bad = [t for t in bad if t[1] != 'missing' and not tiny(t[2])]
    miss = sorted(set(x) ^ set(y))
    rec.event('value comparison', n)
    if miss:
        rec.violation(f'{kind}: other variables in other units', f'{miss[:6]}', spec=replay)
    if bad:
        bad = diff.explain(rec, spec, upto, x, bad, rng, 90)
    if bad:
        rec.violation(f'{kind}: {diff.phase_free(bad[0][0])}',
                      f'{len(bad)} of {n} values depend on the units of inputs: ' + ', '.join(f'{nm}: {diff._short(vw[0])} -> {diff._short(vw[1])}' for nm, d, vw in bad[:4])
                      + f'; re-expressed {seen[:12]}', spec=replay)


def tiny(vw):
    """Rounding of a difference of large numbers."""
    if vw is None:
        return False
    try:
        return bool(np.all(np.abs(np.asarray(vw[0], float) - np.asarray(vw[1], float)) < 1e-7))
    except (TypeError, ValueError):
        return False


def problem_difference(x, y):
    bad = []
    for key, m in x.items():
        if key not in y:
            bad.append((key, 'missing', None, None))
            continue
        c = y[key]
        u, w = m.get('units'), c.get('units')
        for k in ('lower', 'upper', 'equals', 'ref', 'ref0'):
            v1, v2 = diff._norm(k, m.get(k)), diff._norm(k, c.get(k))
            if v2 is not None and u != w and u and w:
                v2 = diff.to_units(v2, w, u)
            if not diff.close(v1, v2):
                bad.append((key, k, (m.get(k), u), (c.get(k), w)))
    for key in y:
        if key not in x:
            bad.append((key, 'extra', None, None))
    return bad


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one aircraft or mission and the same one with a random part (or all) of its inputs re-expressed in other units: aircraft variables and options, phase '
                'options, guesses; every observed value, every bound, target and reference value of the optimization problem has to be the same physical quantity')
    n = chk.pick({'aircraft': 160, 'ES': 36, '2DOF': 8, 'S2DOF': 6}, {'aircraft': 4000, 'ES': 900, '2DOF': 180, 'S2DOF': 120})
    it = [(k, [chk.seed, ms.hash_of('M09'), ms.hash_of(k), i]) for k in ('2DOF', 'ES', 'S2DOF', 'aircraft') for i in range(n[k])]
    chk.pmap(worker, it, timeout=chk.pick(200, 300))
    chk.require('re-expressed input', 1000)
    chk.require('value comparison', 10000)
    chk.require('driver problem comparison', 300)
