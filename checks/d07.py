"""Propulsion preprocessing: generated families of engine models, every engine-dependent option against the priority rule."""
import importlib
import re

import numpy as np

from vlib import dual
from vlib import prob as vp
from vlib.checks_util import conv, pick_units
from vlib.missions import hash_of

DECK = 'models/engines/turbofan_28k.csv'
COUNTS = ['aircraft:engine:num_engines', 'aircraft:engine:num_wing_engines', 'aircraft:engine:num_fuselage_engines']
TOTALS = ['aircraft:propulsion:total_num_engines', 'aircraft:propulsion:total_num_wing_engines', 'aircraft:propulsion:total_num_fuselage_engines']
WL = 'aircraft:engine:wing_locations'
SCALARS = {'aircraft:nacelle:drag_factor', 'aircraft:nacelle:pylon_drag_factor'}


def meta():
    return importlib.import_module('aviary_ref.variable_info.variable_meta_data').CoreMetaData


def engine_vars():
    return [v for v in meta() if re.match(r'aircraft:(engine|nacelle):', v)]


def a_value(rng, m):
    t = m['types']
    if t is bool:
        return bool(rng.integers(2))
    if t is int:
        return int(rng.integers(0, 5))
    if t is str:
        return str(rng.choice(['a.csv', 'mach', 'some/path.csv']))
    if isinstance(t, type) and hasattr(t, '__members__'):
        return ('enum', t.__name__, str(rng.choice(list(t.__members__))))
    return float(np.round(rng.uniform(0.1, 50), 3))


def real(v, pkg):
    if isinstance(v, tuple) and v and v[0] == 'enum':
        return getattr(importlib.import_module(pkg + '.variable_info.enums'), v[1])[v[2]]
    if isinstance(v, list):
        return [real(x, pkg) for x in v]
    return v


def counts(rng):
    r = rng.random()
    w, f = 2 * int(rng.integers(0, 3)), int(rng.integers(0, 3))
    n = w + f + (0 if r < 0.5 else int(rng.integers(-2, 3)))
    out = {}
    if rng.random() < 0.8:
        out[COUNTS[0]] = max(n, 0)
    if rng.random() < 0.6:
        out[COUNTS[1]] = w
    if rng.random() < 0.6:
        out[COUNTS[2]] = f
    return out


def worker(rec, seed):
    for s in seed:
        one(rec, s)


def one(rec, seed):
    rng = np.random.default_rng(seed)
    M = meta()
    ne = int(rng.choice([1, 2, 3, 4], p=[0.3, 0.4, 0.2, 0.1]))
    allv = [v for v in engine_vars() if v not in COUNTS]
    used = [str(v) for v in rng.choice(allv, size=int(rng.integers(1, 14)), replace=False)]
    air, own = {}, [dict() for _ in range(ne)]
    deck_kind = rng.random() < 0.03          # real engine decks built from options
    for v in used:
        m = M[v]
        if deck_kind and (m['types'] in (bool, str) or 'idle' in v or 'scale' in v or 'thrust' in v or 'flow' in v or 'throttle' in v):
            continue
        u = pick_units(rng, m['units'])
        if v == WL:
            mode = rng.random()
            for i in range(ne):
                if rng.random() < 0.7:
                    own[i][v] = ([float(x) for x in np.round(rng.uniform(0.1, 0.9, int(rng.integers(1, 4))), 3)], 'unitless')
                    if rng.random() < 0.2:
                        own[i][v] = (own[i][v][0][0], 'unitless')
            if mode < 0.5:
                k = int(rng.integers(1, 3)) if ne == 1 else 1
                air[v] = ([float(x) for x in np.round(rng.uniform(0.1, 0.9, k), 3)], 'unitless')
            continue
        if v in SCALARS:
            air[v] = (a_value(rng, m), m['units'])
            continue
        if rng.random() < 0.6:
            k = int(rng.choice([0, 1, ne, ne + 1, max(ne - 1, 1)], p=[0.4, 0.2, 0.2, 0.1, 0.1]))
            x = a_value(rng, m) if k == 0 else [a_value(rng, m) for _ in range(k)]
            if not (isinstance(m['types'], type) and hasattr(m['types'], '__members__') and k > 0 and rng.random() < 0):
                air[v] = (x, u)
        for i in range(ne):
            if rng.random() < 0.5:
                own[i][v] = (a_value(rng, m), pick_units(rng, m['units']))
                if rng.random() < 0.15 and m['types'] in (float, int):
                    own[i][v] = ([own[i][v][0], a_value(rng, m)], own[i][v][1])    # only the first counts
    where = rng.random()
    cs = [counts(rng) for _ in range(ne)]
    for i in range(ne):
        if where < 0.6 or rng.random() < 0.3:
            for k, x in cs[i].items():
                own[i][k] = (x, 'unitless')
    if where >= 0.4:
        for k in COUNTS:
            if rng.random() < 0.6:
                r = rng.random()
                col = [c.get(k, 0) for c in cs]
                air[k] = (col if r < 0.7 else col[0] if r < 0.85 else col[:1], 'unitless')
    arr = bool(rng.random() < 0.5)
    twice = bool(rng.random() < 0.5)
    via = str(rng.choice(['preprocess_propulsion', 'preprocess_options']))
    case = {'engines': own, 'aircraft': air, 'decks': deck_kind, 'via': via}
    rec.case(repr(case)[:400], case)
    rec.seen('engine types', ne)
    other = float(np.round(rng.uniform(10, 60), 2))

    def go(pkg):
        AV = importlib.import_module(pkg + '.utils.aviary_values').AviaryValues
        pre = importlib.import_module(pkg + '.utils.preprocessors')
        EM = importlib.import_module(pkg + '.subsystems.propulsion.engine_model').EngineModel
        E = importlib.import_module(pkg + '.variable_info.enums')
        eng = []
        for i in range(ne):
            o = AV()
            o.set_val('settings:verbosity', E.Verbosity.QUIET)
            for k, (x, u) in own[i].items():
                y = real(x, pkg)
                o.set_val(k, np.array(y) if arr and isinstance(y, list) and k != WL else y, u)
            if deck_kind:
                o.set_val('aircraft:engine:data_file', DECK)
                o.set_val('aircraft:engine:scale_factor', 1.0 + 0.1 * i)
                eng.append(importlib.import_module(pkg + '.subsystems.propulsion.utils').build_engine_deck(o, name=f'eng{i}'))
            else:
                eng.append(EM(f'eng{i}', o))
        a = AV()
        a.set_val('settings:verbosity', E.Verbosity.QUIET)
        a.set_val('settings:mass_method', E.LegacyCode.FLOPS)
        a.set_val('aircraft:wing:span', other, 'm')
        for k, (x, u) in air.items():
            y = real(x, pkg)
            a.set_val(k, np.array(y) if arr and isinstance(y, list) and isinstance(y[0], (int, float)) and not isinstance(y[0], bool) else y, u)
        run = (lambda: pre.preprocess_propulsion(a, eng, verbosity=0)) if via == 'preprocess_propulsion' else (lambda: pre.preprocess_options(a, engine_models=eng, verbosity=0))
        run()
        first, once = dual.norm(a), a.deepcopy()
        if twice:
            run()
        keep[pkg] = (once, eng, first, dual.norm(a))
        return a

    keep = {}
    res = dual.judge(rec, 'propulsion preprocessing', go, case)
    if res is None:
        return
    if not res[1].ok:
        rec.violation('propulsion preprocessing fails', f'{res[1].value!r:.400}', case=case)
        return
    a, eng, first, second = keep['aviary']
    if twice:
        rec.event('twice')
        if not dual.same(first, second):
            b = {k: v for k, v in second[1]}
            rest = [k for k, v in first[1] if k not in b or not dual.same(v, b[k])] + [k for k in b if k not in dict(first[1])]
            rec.violation('propulsion preprocessing twice changes the options' + (': wing locations of several engine types are repeated' if rest == [WL] and ne > 1 else ''),
                          f'{rest}: ' + dual.where(first, second), case=case)
    if a.get_val('aircraft:wing:span', 'm') != other:
        rec.violation('propulsion preprocessing changes other options', 'wing span', case=case)
    # priority rule
    if deck_kind:
        for i in range(ne):
            own[i] = {k: (v[0], v[1]) for k, v in eng[i].options.items() if k in M}
    defined = set(air) | {k for o in own for k in o}
    for v in sorted(defined & set(engine_vars())):
        if v in COUNTS:
            continue
        m = M[v]
        want = []
        if v in SCALARS:
            rec.event('engine option')
            if v not in a or not dual.same(dual.norm(a.get_val(v, m['units'])), air[v][0]):
                rec.violation('an option common to all engines is not kept', f'{v}: {air[v]}', case=case)
            continue
        for i in range(ne):
            if v in own[i]:
                x, u = own[i][v]
                x = conv(x, u, m['units'])
                if v == WL:
                    want += list(np.ravel(x))
                else:
                    want.append(x[0] if isinstance(x, list) else x)
            elif v in air:
                x, u = air[v]
                x = conv(x, u, m['units'])
                if v == WL:
                    want += list(np.ravel(x))
                elif isinstance(x, list):
                    want.append(x[0] if len(x) == 1 else x[i] if i < len(x) else m['default_value'])
                else:
                    want.append(x)
            else:
                d = m['default_value']
                want += list(d) if isinstance(d, list) else [d]
        rec.event('engine option')
        got = dual.norm(list(np.ravel(a.get_val(v, m['units'])))) if v in a else None
        exp = dual.norm([real(x, 'aviary') for x in want])
        if not dual.same(got, exp, 1e-9):
            rec.violation('an engine option is not that of its engine' + (': None is stored as text' if None in exp[1] and got == ('list', [str(x) for x in exp[1]]) else ''), f'{v}: {exp} expected, {got} found', case=case)
    # counts
    n, w, f = (np.ravel(a.get_val(k)) for k in COUNTS)
    rec.event('engine counts')
    if not (len(n) == len(w) == len(f) == ne) or np.any(n != w + f):
        rec.violation('engine counts do not agree', f'{n} engines, {w} on the wing, {f} on the fuselage', case=case)
        return
    got = [int(a.get_val(k)) for k in TOTALS]
    if got != [int(n.sum()), int(w.sum()), int(f.sum())]:
        rec.violation('total engine counts do not agree with those of the engines', f'totals {got} of {n}, {w}, {f}', case=case)
    for i in range(ne):
        g = []
        for k in COUNTS:
            if k in own[i]:
                g.append(own[i][k][0])
            elif k in air:
                x = air[k][0]
                g.append(x if not isinstance(x, list) else x[0] if len(x) == 1 else x[i])
            elif any(k in o for o in own):
                g.append(M[k]['default_value'])
            else:
                g.append(0)
        N, W, F = (int(np.ravel(x)[0]) for x in g)
        if W + F == 0:
            W, F = (N, 0) if N > 1 else (0, N)
        elif W + F > N:
            N = W + F
        elif N - W - F > 1:
            W = N - F
        elif N - W - F == 1:
            F = N - W
        rec.event('mounting rule')
        if (n[i], w[i], f[i]) != (N, W, F):
            rec.violation('engine counts do not follow the given ones', f'engine {i}: given total, wing, fuselage {g} gives {(N, W, F)}, found {(n[i], w[i], f[i])}', case=case)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is a family of one to four engine models (plain models, or decks built from options) with random own, aircraft-level and missing data, preprocessed '
                '(half of them twice); every engine-dependent option and the counts are judged by the priority and mounting rules and against the reference')
    n = chk.pick(2400, 60000)
    s = [[chk.seed, hash_of('D07'), i] for i in range(n)]
    chk.pmap(worker, [s[i:i + 60] for i in range(0, n, 60)], timeout=200)
    chk.require('engine option', 8000)
    chk.require('engine counts', 1500)
    chk.require('mounting rule', 3000)
    chk.require('twice', 700)
