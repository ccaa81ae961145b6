"""Payload, crew and option preprocessing: random subsets of options against the stated rules."""
import importlib

import numpy as np

from vlib import dual
from vlib.checks_util import conv, pick_units
from vlib.missions import hash_of

C = 'aircraft:crew_and_payload:'
CLASSES = ['num_first_class', 'num_business_class', 'num_economy_class']
KNOWN_2 = 'preprocessing twice: as-flown cargo of a sizing mission'


def V(pkg):
    return importlib.import_module(pkg + '.variable_info.variables')


def names():
    A = V('aviary_ref')
    return A.Aircraft, A.Mission, A.Settings


def some(rng, p=0.5):
    return rng.random() < p


def make(rng):
    A, M, S = names()
    P = A.CrewPayload
    D = P.Design
    gasp = bool(some(rng, 0.5))
    g = {}                      # name -> (value, units)

    def put(n, v, u='unitless'):
        g[n] = (v, u)

    def group(tot, cl, scale):
        vals = [int(rng.integers(0, scale)) for _ in cl]
        if some(rng, 0.2):
            vals = [0] * 3
        r = rng.random()
        if r < 0.2:
            return
        if r < 0.45:
            put(tot, int(rng.choice([0, 1, int(rng.integers(2, 50)), 50, 51, 150, 151, 249, 250, 500, int(rng.integers(1, 400))])))
            if some(rng, 0.7):
                return
        for n, v in zip(cl, vals):
            if some(rng, 0.7):
                put(n, v)
        if r > 0.75:
            put(tot, sum(g[n][0] for n in cl if n in g) + (0 if some(rng, 0.7) else int(rng.integers(1, 9))))

    group(P.NUM_PASSENGERS, [P.NUM_FIRST_CLASS, P.NUM_BUSINESS_CLASS, P.NUM_ECONOMY_CLASS], int(rng.choice([6, 40, 200])))
    group(D.NUM_PASSENGERS, [D.NUM_FIRST_CLASS, D.NUM_BUSINESS_CLASS, D.NUM_ECONOMY_CLASS], int(rng.choice([6, 40, 200])))
    levels = [float(x) for x in np.round(np.sort(rng.uniform(0, 40000, 3)), 1)]
    for n, v in zip((D.CARGO_MASS, P.CARGO_MASS, D.MAX_CARGO_MASS), levels if some(rng, 0.8) else rng.permutation(levels)):
        if some(rng):
            put(n, float(v), pick_units(rng, 'lbm', 0.3))
    if some(rng, 0.3):
        for n in (D.CARGO_MASS, P.CARGO_MASS, D.MAX_CARGO_MASS):
            if n in g:
                g[n] = (levels[0], 'lbm')
    for n, v in ((P.MASS_PER_PASSENGER_WITH_BAGS, 200.0), (P.MASS_PER_PASSENGER, 165.0), (P.BAGGAGE_MASS_PER_PASSENGER, 40.0)):
        if some(rng, 0.5 if n is P.MASS_PER_PASSENGER_WITH_BAGS else 0.8 if gasp else 0.4):
            put(n, float(np.round(v * rng.uniform(0.7, 1.3), 2)), pick_units(rng, 'lbm', 0.3))
    if gasp and P.MASS_PER_PASSENGER_WITH_BAGS not in g:
        for n, v in ((P.MASS_PER_PASSENGER, 165.0), (P.BAGGAGE_MASS_PER_PASSENGER, 40.0)):
            if n not in g:
                put(n, v, 'lbm')
    for n, hi in ((P.NUM_FLIGHT_ATTENDANTS, 9), (P.NUM_GALLEY_CREW, 4), (P.NUM_FLIGHT_CREW, 5), (P.NUM_CABIN_CREW, 12)):
        if some(rng, 0.35):
            put(n, int(rng.integers(-1 if n in (P.NUM_FLIGHT_ATTENDANTS, P.NUM_GALLEY_CREW) else 0, hi)))
    if some(rng, 0.6):
        r = float(rng.choice([500.0, 900.0, 900.5, 1500.0, 2900.0, 2901.0, 5000.0]))
        u = pick_units(rng, 'NM', 0.3)
        put(A.Design.RANGE, conv(r, 'NM', u), u)
    caps = [float(x) for x in np.round(rng.uniform(10, 60000, 3), 1)]
    u = str(rng.choice(['lbm', 'kg']))
    for n, v in zip((A.Fuel.WING_FUEL_MASS_CAPACITY, A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY, A.Fuel.AUXILIARY_FUEL_MASS_CAPACITY), caps):
        if some(rng, 0.6):
            put(n, v, u)
    if some(rng, 0.6):
        r = rng.random()
        t = sum(caps) if r < 0.5 else sum(caps) * float(rng.choice([0.2, 0.8, 0.99, 1.01, 1.5]))
        put(A.Fuel.MAX_CAPACITY_MASS, float(np.round(t, 1)), u)
    if some(rng, 0.7):
        put(A.Design.TYPE, ('enum', 'AircraftTypes', str(rng.choice(['TRANSPORT', 'TRANSPORT', 'BLENDED_WING_BODY']))))
    if some(rng, 0.5):
        put(A.Engine.NUM_FUSELAGE_ENGINES, int(rng.integers(0, 4)) if some(rng) else [int(rng.integers(0, 4))])
    if some(rng, 0.2):
        put(A.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION, float(rng.choice([0, 1, 0.5])))
    if some(rng, 0.4):
        put(S.PROBLEM_TYPE, ('enum', 'ProblemType', str(rng.choice(['SIZING', 'OFF_DESIGN_MIN_FUEL', 'OFF_DESIGN_MAX_RANGE']))))
    for n, ref in ((A.Wing.ASPECT_RATIO, A.Wing.ASPECT_RATIO_REFERENCE), (A.Wing.THICKNESS_TO_CHORD, A.Wing.THICKNESS_TO_CHORD_REFERENCE)):
        if some(rng):
            put(n, float(np.round(rng.uniform(0.1, 12), 3)))
        if some(rng):
            put(ref, 0.0 if some(rng) else float(np.round(rng.uniform(0.1, 12), 3)))
    if some(rng, 0.3):
        put(A.Design.PERCENT_EXCRESCENCE_DRAG, 0.03)
    if some(rng, 0.6):
        put(S.AERODYNAMICS_METHOD, ('enum', 'LegacyCode', str(rng.choice(['FLOPS', 'GASP']))))
    if some(rng, 0.4):
        put(A.Fuselage.SIMPLE_LAYOUT, bool(rng.integers(2)))
    for n in (A.Fuselage.SEAT_WIDTH_ECONOMY, A.Fuselage.SEAT_WIDTH_BUSINESS, A.Fuselage.SEAT_WIDTH_FIRST):
        if some(rng, 0.3):
            put(n, float(np.round(rng.uniform(18, 30), 2)), pick_units(rng, 'inch', 0.3))
    if some(rng, 0.3):
        put(S.ATMOSPHERE_MODEL, ('enum', 'AtmosphereModel', str(rng.choice(['STANDARD', 'TROPICAL', 'POLAR', 'HOT', 'COLD']))))
    if some(rng, 0.2):
        put(M.GRAVITY, 32.0, 'ft/s**2')
    if some(rng, 0.2):
        put(M.SEA_LEVEL_DENSITY, 0.0024, 'slug/ft**3')
    put(A.Wing.SPAN, float(np.round(rng.uniform(60, 200), 2)), 'ft')
    put(S.MASS_METHOD, ('enum', 'LegacyCode', 'GASP' if gasp else 'FLOPS'))
    return gasp, g


def rules(gasp, g, which):
    """What the options have to be afterwards (name -> (value, units)), or an exception."""
    A, M, S = names()
    P = A.CrewPayload
    D = P.Design
    o = dict(g)

    def get(n, u=None):
        v, a = o[n]
        return conv(v, a, u) if u else v

    cl, dcl = [P.NUM_FIRST_CLASS, P.NUM_BUSINESS_CLASS, P.NUM_ECONOMY_CLASS], [D.NUM_FIRST_CLASS, D.NUM_BUSINESS_CLASS, D.NUM_ECONOMY_CLASS]
    if gasp:
        for t in (P.NUM_PASSENGERS, D.NUM_PASSENGERS):
            other = D.NUM_PASSENGERS if t == P.NUM_PASSENGERS else P.NUM_PASSENGERS
            if t not in g:
                o[t] = (g[other][0] if other in g else 0, 'unitless')
        for t, c in ((P.NUM_PASSENGERS, cl), (D.NUM_PASSENGERS, dcl)):
            if o[t][0] != 0:
                o[c[2]] = (max(o[t][0] - sum(o[n][0] for n in c[:2] if n in o), 0), 'unitless')
    else:
        given = [any(n in g for n in [t] + c) for t, c in ((P.NUM_PASSENGERS, cl), (D.NUM_PASSENGERS, dcl))]
        for t in [P.NUM_PASSENGERS, D.NUM_PASSENGERS] + cl + dcl:
            o.setdefault(t, (0, 'unitless'))
        if given[0] and not given[1]:
            for a, b in zip([P.NUM_PASSENGERS] + cl, [D.NUM_PASSENGERS] + dcl):
                o[b] = o[a]
        if given[1] and not given[0]:
            for a, b in zip([P.NUM_PASSENGERS] + cl, [D.NUM_PASSENGERS] + dcl):
                o[a] = o[b]
        for t, c in ((P.NUM_PASSENGERS, cl), (D.NUM_PASSENGERS, dcl)):
            s = sum(o[n][0] for n in c)
            if s == 0:
                o[c[2]] = o[t]
            else:
                o[t] = (s, 'unitless')
    dp = o[D.NUM_PASSENGERS][0]
    if gasp:
        c, d, m = (get(n, 'lbm') if n in g else None for n in (P.CARGO_MASS, D.CARGO_MASS, D.MAX_CARGO_MASS))
        sizing = S.PROBLEM_TYPE not in g or g[S.PROBLEM_TYPE][0][2] == 'SIZING'
        if None not in (c, d, m):
            c = d if sizing else c
        elif c is not None:
            if m is None:
                m = d if d is not None else c
                d = d if d is not None else c
            else:
                d = m
        elif m is not None:
            c, d = 0.0, d if d is not None else 0.0
        elif d is not None:
            m, c = d, 0.0
        else:
            c = d = m = 0.0
        if c > m or d > m:
            return 'more cargo than the maximum'
        for n, v in ((P.CARGO_MASS, c), (D.CARGO_MASS, d), (D.MAX_CARGO_MASS, m)):
            o[n] = (v, 'lbm')
        if P.MASS_PER_PASSENGER_WITH_BAGS not in g:
            o[P.MASS_PER_PASSENGER_WITH_BAGS] = (get(P.MASS_PER_PASSENGER, 'lbm') + get(P.BAGGAGE_MASS_PER_PASSENGER, 'lbm'), 'lbm')
    else:
        if P.NUM_FLIGHT_ATTENDANTS not in g or g[P.NUM_FLIGHT_ATTENDANTS][0] < 0:
            o[P.NUM_FLIGHT_ATTENDANTS] = (0 if dp == 0 else 1 if dp <= 50 else dp // 40 + 1, 'unitless')
        if P.NUM_GALLEY_CREW not in g or g[P.NUM_GALLEY_CREW][0] < 0:
            o[P.NUM_GALLEY_CREW] = (0 if dp <= 150 else dp // 250 + 1, 'unitless')
        if P.NUM_FLIGHT_CREW not in g:
            o[P.NUM_FLIGHT_CREW] = (2 if dp <= 150 else 3, 'unitless')
        if P.NUM_CABIN_CREW in g:
            o[P.NUM_CABIN_CREW] = (o[P.NUM_FLIGHT_ATTENDANTS][0] + o[P.NUM_GALLEY_CREW][0], 'unitless')
        if P.BAGGAGE_MASS_PER_PASSENGER not in g:
            b = 35.0
            if A.Design.RANGE in g:
                r = get(A.Design.RANGE, 'NM')
                if min(abs(r - 900), abs(r - 2900)) < 1e-6 and g[A.Design.RANGE][1] != 'NM':
                    return None
                b = 35.0 if r <= 900 else 40.0 if r <= 2900 else 44.0
            o[P.BAGGAGE_MASS_PER_PASSENGER] = (b, 'lbm')
        if A.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION not in g:
            n = np.ravel(g.get(A.Engine.NUM_FUSELAGE_ENGINES, (0,))[0])[0]
            t = g.get(A.Design.TYPE, (('', '', 'TRANSPORT'),))[0][2]
            o[A.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (1 if n > 1 and t == 'TRANSPORT' else 0, 'unitless')
    if which == 'crew':
        return o
    caps = [A.Fuel.WING_FUEL_MASS_CAPACITY, A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY, A.Fuel.AUXILIARY_FUEL_MASS_CAPACITY]
    if not gasp:
        if A.Fuel.MAX_CAPACITY_MASS not in g:
            for n in caps[1:]:
                if n not in g:
                    o[n] = (0.0, 'lbm')
        else:
            t = get(A.Fuel.MAX_CAPACITY_MASS, 'lbm')
            have = [get(n, 'lbm') for n in caps if n in g]
            eps = 1e-6 * t
            if len(have) == 3 and abs(sum(have) - t) > eps or len(have) < 3 and sum(have) > t + eps:
                return 'fuel capacities do not add up'
    if which == 'fuel':
        return o
    for n, ref in ((A.Wing.ASPECT_RATIO, A.Wing.ASPECT_RATIO_REFERENCE), (A.Wing.THICKNESS_TO_CHORD, A.Wing.THICKNESS_TO_CHORD_REFERENCE)):
        if n in g and ref in g and g[ref][0] == 0:
            o[ref] = g[n]
    if A.Design.PERCENT_EXCRESCENCE_DRAG not in g and g.get(S.AERODYNAMICS_METHOD, ((0, 0, ''),))[0][2] == 'FLOPS':
        o[A.Design.PERCENT_EXCRESCENCE_DRAG] = (0.06, 'unitless')
    t = g.get(A.Design.TYPE, (('', '', 'TRANSPORT'),))[0][2]
    if A.Fuselage.SIMPLE_LAYOUT not in g:
        o[A.Fuselage.SIMPLE_LAYOUT] = (not (gasp and t == 'BLENDED_WING_BODY'), 'unitless')
    if not o[A.Fuselage.SIMPLE_LAYOUT][0] and (not gasp and t == 'TRANSPORT' or gasp and t == 'BLENDED_WING_BODY'):
        for n, w in ((A.Fuselage.SEAT_WIDTH_ECONOMY, 20.0), (A.Fuselage.SEAT_WIDTH_BUSINESS, 22.0), (A.Fuselage.SEAT_WIDTH_FIRST, 28.0 if gasp else 25.0)):
            if n not in g:
                o[n] = (w, 'inch')
    o.setdefault(S.ATMOSPHERE_MODEL, ('any', None))
    o.setdefault(M.GRAVITY, ('any', None))
    o.setdefault(M.SEA_LEVEL_DENSITY, ('any', None))
    return o


def real(v, pkg):
    if isinstance(v, tuple) and v and v[0] == 'enum':
        return getattr(importlib.import_module(pkg + '.variable_info.enums'), v[1])[v[2]]
    return list(v) if isinstance(v, list) else v


def worker(rec, seeds):
    for s in seeds:
        one(rec, s)


def one(rec, seed):
    rng = np.random.default_rng(seed)
    A, M, S = names()
    gasp, g = make(rng)
    which = str(rng.choice(['crew', 'fuel', 'all'], p=[0.3, 0.1, 0.6]))
    if which == 'fuel':
        which = 'all'
    order = [str(x) for x in rng.permutation(list(g))]
    verb = int(rng.integers(0, 3))
    case = {'given': {k: list(v) for k, v in g.items()}, 'function': which}
    rec.case(repr(sorted(g.items()))[:600], case)
    rec.seen('subsets of passenger options', ','.join(sorted(k.split(':')[-1] for k in g if 'num_' in k and 'class' in k or 'passengers' in k)))
    keep = {}

    def go(pkg):
        pre = importlib.import_module(pkg + '.utils.preprocessors')
        a = importlib.import_module(pkg + '.utils.aviary_values').AviaryValues()
        a.set_val('settings:verbosity', verb)
        for k in order:
            v, u = g[k]
            a.set_val(k, real(v, pkg), u)
        run = (lambda: pre.preprocess_crewpayload(a, verbosity=verb)) if which == 'crew' else (lambda: pre.preprocess_options(a, verbosity=verb))
        run()
        once = a.deepcopy()
        try:
            run()
            keep[pkg] = (once, a)
        except Exception as e:
            keep[pkg] = (once, e)
        return once

    res = dual.judge(rec, 'option preprocessing', go, case)
    if res is None:
        return
    want = rules(gasp, g, which)
    if want is None:
        rec.skip('range at a step of the baggage rule in other units')
        return
    if isinstance(want, str):
        rec.event('inconsistent options')
        if res[1].ok:
            rec.violation(f'inconsistent options are accepted: {want}', '', case=case)
        return
    if not res[1].ok:
        rec.violation('consistent options are refused', f'{res[1].value!r:.400}', case=case)
        return
    a, b = keep['aviary']
    have = dict(a.items())
    have.pop('settings:verbosity', None)
    for k in sorted(set(want) | set(have)):
        rec.event('option')
        if k not in have:
            rec.violation('option is not filled in', f'{k}: {want[k]} expected', case=case)
            continue
        if k not in want:
            rec.violation('option appears from nowhere', f'{k}: {have[k]}', case=case)
            continue
        w, u = want[k]
        if w == 'any':
            continue
        got, e = dual.norm(a.get_val(k, u)), dual.norm(real(w, 'aviary'))
        if not dual.same(got, e, 1e-9):
            rec.violation('option is not what the rules give' if k not in g or g[k] != want[k] else 'a consistently given option is changed', f'{k}: {e} {u} expected, {got} found', case=case)
    # class counts
    P = A.CrewPayload
    for X, t in ((P, 'as flown'), (P.Design, 'design')):
        if not gasp:
            rec.event('class sums')
            if sum(a.get_val(n) for n in (X.NUM_FIRST_CLASS, X.NUM_BUSINESS_CLASS, X.NUM_ECONOMY_CLASS)) != a.get_val(X.NUM_PASSENGERS):
                rec.violation('class counts do not add up', t, case=case)
    rec.event('twice')
    if isinstance(b, Exception):
        rec.violation('preprocessing twice fails', f'{b!r:.300}', case=case)
        return
    n1, n2 = dual.norm(a), dual.norm(b)
    if not dual.same(n1, n2):
        d2 = dict(n2[1])
        rest = [k for k, v in n1[1] if k not in d2 or not dual.same(v, d2[k])] + [k for k in d2 if k not in dict(n1[1])]
        cargo = rest == [P.CARGO_MASS] and gasp and not (P.CARGO_MASS in g and P.Design.CARGO_MASS in g and P.Design.MAX_CARGO_MASS in g)
        rec.violation(KNOWN_2 if cargo else 'preprocessing twice changes the options', f'{rest}: {dual.where(n1, n2)}', case=case)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one random subset of passenger, crew, cargo, fuel capacity, layout and method options with random values and units, preprocessed twice; '
                'judged by the rules of the documentation, option by option, and against the reference')
    n = chk.pick(6000, 200000)
    s = [[chk.seed, hash_of('D06'), i] for i in range(n)]
    chk.pmap(worker, [s[i:i + 150] for i in range(0, n, 150)], timeout=200)
    chk.require('option', 30000)
    chk.require('class sums', 2000)
    chk.require('twice', 3000)
    chk.require('inconsistent options', 300)
