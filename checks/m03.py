"""Engine decks reproduce their data, scaled and limited as asked."""

import os
import shutil
import tempfile

import numpy as np

from vlib import engines as en
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import CaseTimeout, eval_limit

A = en.A
TOTAL = {
    'thrust_net_total': 'thrust_net', 'thrust_net_max_total': 'thrust_net_max', 'fuel_flow_rate_negative_total': 'fuel_flow_rate_negative',
    'electric_power_in_total': 'electric_power_in', 'nox_rate_total': 'nox_rate',
}


def options(rng, d):
    o = {A + 'interpolation_sort': (d.sort, 'unitless')}
    o[A + 'global_throttle'] = (bool(rng.random() < 0.5), 'unitless')
    if d.hybrid:
        o[A + 'global_hybrid_throttle'] = (bool(rng.random() < 0.5), 'unitless')
    if rng.random() < 0.5:
        o[A + 'generate_flight_idle'] = (True, 'unitless')
        if rng.random() < 0.7:
            o[A + 'flight_idle_thrust_fraction'] = (float(np.round(rng.uniform(0, 0.15), 3)), 'unitless')
        if rng.random() < 0.7:
            o[A + 'flight_idle_min_fraction'] = (float(np.round(rng.uniform(0, 0.2), 3)), 'unitless')
        if rng.random() < 0.5:
            o[A + 'flight_idle_max_fraction'] = (float(np.round(rng.uniform(0.3, 1.2), 3)), 'unitless')
    o[A + 'ignore_negative_thrust'] = (bool(rng.random() < 0.3), 'unitless')
    o[A + 'geopotential_alt'] = (bool(rng.random() < 0.35), 'unitless')
    o['settings:atmosphere_model'] = (None, 'unitless')
    if rng.random() < 0.25:
        o[A + 'interpolation_method'] = (str(rng.choice(['lagrange2', 'akima', 'lagrange3'])), 'unitless')
    c = rng.random()
    if c < 0.4:
        o[A + 'scale_factor'] = (float(np.round(rng.uniform(0.4, 2.0), 4)), 'unitless')
    elif c < 0.7:
        o[A + 'scaled_sls_thrust'] = (float(np.round(rng.uniform(4000, 50000), 1)), 'lbf') if rng.random() < 0.6 else (float(np.round(rng.uniform(20, 200), 3)), 'kN')
    if rng.random() < 0.3:
        o[A + 'reference_sls_thrust'] = (float(np.round(rng.uniform(15000, 30000), 1)), 'lbf') if rng.random() < 0.5 else (float(np.round(rng.uniform(70000, 130000), 1)), 'N')
    for k, lo, hi in (('subsonic_fuel_flow_scaler', 0.7, 1.4), ('supersonic_fuel_flow_scaler', 0.7, 1.4),
                      ('fuel_flow_scaler_constant_term', -0.2, 0.3), ('fuel_flow_scaler_linear_term', -0.4, 0.6)):
        if rng.random() < 0.4:
            o[A + k] = (float(np.round(rng.uniform(lo, hi), 4)), 'unitless')
    if rng.random() < 0.35:
        o[A + 'constant_fuel_mass_consumption'] = (float(np.round(rng.uniform(-50, 300), 2)), 'lbm/h') if rng.random() < 0.6 else (float(np.round(rng.uniform(0, 0.03), 5)), 'kg/s')
    return o


def for_pkg(pkg, o):
    import importlib

    AM = importlib.import_module(pkg + '.variable_info.enums').AtmosphereModel
    r = dict(o)
    if 'settings:atmosphere_model' in r:
        r['settings:atmosphere_model'] = (AM.STANDARD, 'unitless')
    return r


def build(pkg, d, L, o, tmp, name='engine', tag=''):
    path = None
    if L.source == 'file':
        path = os.path.join(tmp, f'{name}{tag}.csv')
        if not os.path.exists(path):
            en.write(d, L, path)
    return en.engine(pkg, d, L, for_pkg(pkg, o), name, path)


def g(o, k, dv=None):
    return o.get(A + k, (dv, None))[0]


def expected_scaling(o, ref):
    from openmdao.utils.units import convert_units

    def q(k):
        v = o.get(A + k)
        return None if v is None else (convert_units(v[0], v[1], 'lbf') if v[1] not in (None, 'unitless') else v[0])

    r = q('reference_sls_thrust')
    r = ref if r is None else r
    if A + 'scale_factor' in o:
        s = g(o, 'scale_factor')
        return s, r * s, r
    if A + 'scaled_sls_thrust' in o:
        t = q('scaled_sls_thrust')
        return t / r, t, r
    return 1.0, r, r


def near(a, b, scale, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(np.all((np.abs(a - b) <= tol * scale + 1e-9) | (np.isnan(a) & np.isnan(b))))


class Expect:
    """What one deck has to give, read independently."""

    def __init__(self, d, L, o):
        self.o, self.d = o, d
        raw = en.table(d, L, o)
        n = len(raw['thrust'])
        self.few = False
        self.ok = n > 0
        if not self.ok:
            return
        self.raw_alt = raw['alt'].copy()
        if g(o, 'geopotential_alt'):
            u = {a: en.geometric(a, 6371009.0, 9.80665) for a in np.unique(raw['alt'])}
            raw['alt'] = np.array([u[a] for a in raw['alt']])
        sls = (np.abs(raw['alt']) <= 10) & (np.abs(raw['mach']) < 0.01)
        self.sls = raw['thrust'][sls].max() if sls.any() else None
        # a table needs several throttles (and hybrid throttles) at each condition, and several conditions along each axis
        c = en.conditions(raw)
        for ix in c.values():
            if len(np.unique(raw['thr'][ix])) < 2 or (d.hybrid and len(ix) % 3):
                self.ok = False
        first = 'mach' if d.sort == 'mach' else 'alt'
        second = 'alt' if d.sort == 'mach' else 'mach'
        ax = {}
        for m, a in c:
            k, v = (m, a) if d.sort == 'mach' else (a, m)
            ax.setdefault(k, set()).add(v)
        self.thin = min(len(v) for v in ax.values())
        if len(ax) < 2 or self.thin < 2:
            self.ok = False
        self.counts = min(min(len(np.unique(raw['thr'][ix])) for ix in c.values()), len(ax), self.thin)
        self.raw = en.order(raw, d.sort, d.hybrid)
        self.keys = [first, second, 'thr'] + (['hyb'] if d.hybrid else [])
        self.outs = [c for c in d.cols if c in raw and c not in ('mach', 'alt', 'thr', 'hyb')] if d.form != 'gross' else None
        if self.outs is None:
            self.outs = ['thrust'] + [c for c in d.cols if c in raw and c not in ('mach', 'alt', 'thr', 'hyb', 'thrust')]
        self.idle = []
        t = en.normalize(self.raw, g(o, 'global_throttle'), g(o, 'global_hybrid_throttle', False), d.hybrid)
        if g(o, 'generate_flight_idle'):
            # conditions that get an idle point: the lowest point has useful thrust (and shaft power)
            for k, ix in en.conditions(self.raw).items():
                low = ix[0]
                lows = [self.raw['thrust'][low]] + ([self.raw['shp'][low]] if 'shp' in self.raw else [])
                if min(abs(x - 1.0) for x in lows) < 0.2:
                    self.ok = False
                if min(lows) > 1.0:
                    self.idle.append(k)
            self.shift(t)
        self.t = t

    def shift(self, t):
        """Throttles after the idle points (at -0.1) were added."""
        if not self.idle:
            return
        thr = t['thr'].copy()
        if g(self.o, 'global_throttle'):
            thr = (thr + 0.1) / 1.1
        else:
            for k, ix in en.conditions(t).items():
                if k in self.idle:
                    thr[ix] = (thr[ix] + 0.1) / 1.1
        t['thr'] = thr

    def with_idle(self, values):
        """The full table, idle rows as the model has them."""
        X = np.column_stack([self.t[k] for k in self.keys])
        Y = np.column_stack([self.t[k] for k in self.outs])
        if self.idle:
            rows, vals = [], []
            hs = [0.0] if not self.d.hybrid else [-1.0, 0.0, 1.0]
            for (m, a), v in zip(self.idle, values):
                p = [m, a] if self.d.sort == 'mach' else [a, m]
                for h in hs:
                    rows.append(p + [0.0] + ([h] if self.d.hybrid else []))
                    vals.append(v)
            X = np.vstack([X, rows])
            Y = np.vstack([Y, vals])
        return X, Y


def pick_points(rng, E, n):
    """Rows of the table, points between them, idle points."""
    t = E.t
    N = len(t['thr'])
    rows = rng.choice(N, size=min(n, N), replace=False)
    cols = ['mach', 'alt', 'thr'] + (['hyb'] if E.d.hybrid else [])
    P = np.column_stack([t[c][rows] for c in cols])
    idle = []
    for m, a in E.idle:
        idle.append([m, a, 0.0] + ([0.0] if E.d.hybrid else []))
    # between: inside the box every sub-table covers
    c = list(en.conditions(t))
    ax = {}
    for m, a in c:
        k, v = (m, a) if E.d.sort == 'mach' else (a, m)
        ax.setdefault(k, []).append(v)
    lo, hi = max(min(v) for v in ax.values()), min(max(v) for v in ax.values())
    first = sorted(ax)
    B = []
    for _ in range(10):
        if hi <= lo:
            break
        x, y = rng.uniform(first[0], first[-1]), rng.uniform(lo, hi)
        m, a = (x, y) if E.d.sort == 'mach' else (y, x)
        B.append([m, a, rng.uniform(0, 1)] + ([rng.uniform(-0.9, 0.9)] if E.d.hybrid else []))
    return rows, P, np.array(idle).reshape(-1, P.shape[1]), np.array(B).reshape(-1, P.shape[1])


def single(p, eng, av, pts):
    return en.fly(p, [eng], av, pts)


def deck_case(rec, rng, tmp):
    sort = str(rng.choice(['mach', 'altitude']))
    d = en.make_deck(rng, 'mach' if sort == 'mach' else 'alt', hybrid=bool(rng.random() < 0.25))
    o = options(rng, d)
    o[A + 'interpolation_sort'] = (sort, 'unitless')
    L = en.layout(rng, d)
    replay = {'options': o, 'sort': sort, 'units': L.units, 'order': L.order, 'source': L.source, 'form': d.form}
    rec.case((sort, d.form, L.source, len(d.given), tuple(sorted((k, str(v)) for k, v in o.items()))), replay)
    E = Expect(d, L, o)
    what = 'deck'
    res = {}
    for pkg in ('aviary_ref', 'aviary'):
        try:
            with vp.quiet(), eval_limit(30):
                e = build(pkg, d, L, o, tmp)
                res[pkg] = e
        except CaseTimeout:
            raise
        except Exception as ex:
            res[pkg] = ex
    r, c = res['aviary_ref'], res['aviary']
    if isinstance(r, Exception) or isinstance(c, Exception):
        rec.event('rejection comparison')
        if isinstance(c, Exception) and not isinstance(r, Exception):
            rec.violation(f'{what}: a valid deck is rejected ({type(c).__name__})', f'{c!r:.400}', **replay)
        elif isinstance(r, Exception) and not isinstance(c, Exception):
            rec.violation(f'{what}: a deck that has to be rejected is accepted ({type(r).__name__})', f'the release rejects it with {r!r:.300}', **replay)
        elif E.ok:
            rec.skip('both reject a deck')
            rec.stat(f'both reject: {r!r:.120}')
        return
    if not E.ok:
        rec.skip('the deck is too small to be a table')
        return
    method = g(o, 'interpolation_method', 'slinear')
    # ------------------------------------------------ scaling
    sf, target, reft = expected_scaling(o, E.sls)
    got = [float(np.ravel(c.get_val(A + k, u))[0]) for k, u in (('scale_factor', 'unitless'), ('scaled_sls_thrust', 'lbf'), ('reference_sls_thrust', 'lbf'))]
    rec.event('sizing of the engine', 3)
    for nm, a, b in zip(('scale_factor', 'scaled_sls_thrust', 'reference_sls_thrust'), got, (sf, target, reft)):
        if not near(a, b, abs(b), 1e-9):
            rec.violation(f'deck: {nm}', f'is {a!r}, the deck and the options give {b!r}', **replay)
    rows, P, idle, B = pick_points(rng, E, 24)
    pts = np.vstack([x for x in (P, idle, B) if len(x)])
    outs = {}
    for pkg, e in (('aviary_ref', r), ('aviary', c)):
        try:
            with vp.quiet(), eval_limit(40):
                p, av = en.fleet(pkg, [e], None, len(pts))
                outs[pkg] = single(p, e, av, pts)
        except CaseTimeout:
            raise
        except Exception as ex:
            outs[pkg] = ex
    R, C = outs['aviary_ref'], outs['aviary']
    if isinstance(R, Exception) or isinstance(C, Exception):
        if isinstance(C, Exception) and not isinstance(R, Exception):
            rec.violation(f'deck: the engine cannot be evaluated ({type(C).__name__})', f'{C!r:.400}', **replay)
        elif isinstance(R, Exception) and not isinstance(C, Exception):
            rec.event('rejection comparison')
        else:
            rec.skip('engine not evaluated')
            rec.stat(f'not evaluated: {R!r:.160}')
        return
    rec.seen('options', tuple(sorted(k for k, v in o.items() if v[0])))
    rec.event('comparison with the release', sum(np.size(v) for v in R.values()))
    for k in R:
        if k not in C or not near(C[k], R[k], np.nanmax(np.abs(R[k]), initial=0) + 1e-12, 1e-7):
            rec.violation(f'deck: {k} differs from the release', f'{k} is {np.ravel(C.get(k, np.nan))[:4]}, the release gives {np.ravel(R[k])[:4]}', **replay)
            break
    npt, nid = len(P), len(idle)
    if d.hybrid and nid:
        # the idle points of a hybrid deck are only compared with the release
        return
    # ------------------------------------------------ idle points
    scale = {v: np.abs(E.raw[v]).max() for v in E.outs}

    def want(Yrow, mach):
        v = dict(zip(E.outs, Yrow))
        w = {}
        for k, src in en.OUT.items():
            if src not in v:
                continue
            if k == 'fuel_flow_rate_negative':
                from openmdao.utils.units import convert_units

                oo = dict(o)
                cf = o.get(A + 'constant_fuel_mass_consumption')
                oo[A + 'constant_fuel_flow'] = (convert_units(*cf, 'lbm/h') if cf else 0.0, None)
                w[k] = float(en.fuel(np.array([v[src]]), sf, np.array([mach]), oo)[0])
            else:
                w[k] = v[src] if k in en.UNSCALED else v[src] * sf
        return w

    def inverse(i):
        """Unscaled outputs of point i as the model gives them."""
        v = []
        for s in E.outs:
            k = [a for a, b in en.OUT.items() if b == s][0]
            x = float(np.ravel(C[k])[i])
            if k == 'fuel_flow_rate_negative':
                one, zero = want(np.ones(len(E.outs)), pts[i, 0])[k], want(np.zeros(len(E.outs)), pts[i, 0])[k]
                x = (x - zero) / (one - zero)
            elif k not in en.UNSCALED:
                x = x / sf
            v.append(x)
        return v

    vals = [inverse(npt + j) for j in range(nid)]
    for (m, a), v in zip(E.idle, vals):
        ix = en.conditions(E.raw)[(m, a)]
        idle_monitor(rec, E, o, (m, a), ix, dict(zip(E.outs, v)), scale, replay)
    # ------------------------------------------------ points of the table and between
    geo = bool(g(o, 'geopotential_alt'))
    tol = 1e-8 if not geo else 2e-5
    X, Y = E.with_idle(vals)
    for i in range(len(pts)):
        if npt <= i < npt + nid:
            continue
        on = i < npt
        if on:
            y = np.array([E.t[k][rows[i]] for k in E.outs])
        else:
            if method != 'slinear':
                continue
            xx = dict(zip(['mach', 'alt', 'thr', 'hyb'], pts[i]))
            y = en.interp(X, Y, np.array([xx[k] for k in E.keys]))
        w = want(y, pts[i, 0])
        for k, b in w.items():
            a = float(np.ravel(C[k])[i])
            rec.event('table point' if on else 'point between')
            s = scale[en.OUT[k]] * (1 if k in en.UNSCALED else max(sf, 1e-3)) * 2
            if not near(a, b, s, tol):
                rec.violation(f'deck: {k} {"at a point of the table" if on else "between points"}',
                              f'at mach {pts[i, 0]:.4f}, altitude {pts[i, 1]:.1f} ft, throttle {pts[i, 2]:.4f}: {a!r}, the deck gives {b!r}', **replay)
                break
        # the most the engine gives at this condition: full throttle (and hybrid throttle)
        if method == 'slinear' and (not d.hybrid or not idle.size) and not (on and g(o, 'global_throttle')):
            x = dict(zip(['mach', 'alt', 'thr', 'hyb'], pts[i]))
            top = dict(x)
            top['thr'] = 1.0
            if d.hybrid:
                top['hyb'] = E.t['hyb'].max()
            y = en.interp(X, Y, np.array([top[k] for k in E.keys]))
            for k, src in (('thrust_net_max', 'thrust'), ('shaft_power_max', 'shp')):
                if src in E.outs and k in C:
                    b = y[E.outs.index(src)] * sf
                    a = float(np.ravel(C[k])[i])
                    rec.event('maximum at a condition')
                    if not near(a, b, scale[src] * sf * 2, max(tol, 1e-7)):
                        rec.violation(f'deck: {k}', f'at mach {pts[i, 0]:.4f}, altitude {pts[i, 1]:.1f} ft: {a!r}, the deck gives {b!r} at full throttle', **replay)
                        break
    # ------------------------------------------------ the layout of the data does not matter
    if rng.random() < 0.5:
        L2 = en.layout(rng, d)
        if L2.source == 'file':
            en.write(d, L2, os.path.join(tmp, 'other.csv'))
        try:
            with vp.quiet(), eval_limit(30):
                e2 = en.engine('aviary', d, L2, for_pkg('aviary', o), 'engine', os.path.join(tmp, 'other.csv') if L2.source == 'file' else None)
                p2, av2 = en.fleet('aviary', [e2], None, len(pts))
                C2 = single(p2, e2, av2, pts)
        except CaseTimeout:
            raise
        except Exception as ex:
            rec.violation(f'deck: the same data in another layout is rejected ({type(ex).__name__})', f'{ex!r:.300}', units=L2.units, source=L2.source, **{k: v for k, v in replay.items() if k not in ('units', 'source')})
            return
        rec.event('same deck in another layout')
        for k in C:
            if not near(C2[k], C[k], np.abs(C[k]).max() + 1e-9, 1e-6):
                rec.violation(f'deck: {k} depends on the layout of the data', f'{np.ravel(C[k])[:4]} and {np.ravel(C2[k])[:4]}', other=L2.units, **replay)
                break


def idle_monitor(rec, E, o, cond, ix, v, scale, replay):
    """The documented idle point: a fraction of the maximum thrust, everything else on the line through the lowest two points, within limits."""
    if E.d.hybrid or len(np.unique(E.raw['thr'][ix])) < 3:
        return
    t = E.raw
    f = g(o, 'flight_idle_thrust_fraction', 0.0)
    lo, hi = g(o, 'flight_idle_min_fraction', 0.08), g(o, 'flight_idle_max_fraction', 1.0)
    last, a, b = ix[-1], ix[0], ix[1]
    tol = 1e-8 if not g(o, 'geopotential_alt') else 2e-5
    direct = ['thrust'] + (['shp'] if 'shp' in t else [])
    rec.event('idle point')
    for s in direct:
        w = f * t[s][last]
        if not near(v[s], w, scale[s], tol):
            if near(v[s], f * t[s][ix[-2]], scale[s], tol):
                rec.violation(f'idle point: {s} is the stated fraction of the second highest point, not of the maximum', f'at {cond}: {v[s]!r}, {f} of {t[s][last]!r} is {w!r}', **replay)
            else:
                rec.violation(f'idle point: {s} is not the stated fraction of the maximum', f'at {cond}: {v[s]!r}, {f} of {t[s][last]!r} is {w!r}', **replay)
                return
    s = direct[-1]
    term = (v[s] - t[s][a]) / (t[s][b] - t[s][a])
    fewer = len(ix) < max(len(x) for x in en.conditions(t).values())
    for k in E.outs:
        if k in direct:
            continue
        free = t[k][a] + (t[k][b] - t[k][a]) * term if (t[k][a] or t[k][b]) else 0.0
        m1, m2 = t[k][last] * lo, t[k][last] * hi
        w = m1 if free < m1 else (m2 if free > m2 else free)
        rec.event('idle output')
        if not near(v[k], w, scale[k], 10 * tol):
            if fewer and near(v[k], 0.0, scale[k], 10 * tol):
                rec.violation('idle point: the limits of a condition with fewer points than another are zero', f'at {cond}: {k} {v[k]!r}, documented {w!r}', **replay)
            else:
                rec.violation(f'idle point: {k} is not extrapolated within the limits', f'at {cond}: {v[k]!r}, documented {w!r}', **replay)
            return


def fleet_case(rec, rng, tmp):
    """Several engine types: each gives its own data, totals are sums over types times their counts."""
    k = int(rng.integers(2, 4))
    names = [str(x) for x in rng.permutation(['eng', 'eng_2', 'eng_22', 'turbo'])[:k]]
    parts = []
    for nm in names:
        sort = str(rng.choice(['mach', 'altitude']))
        d = en.make_deck(rng, 'mach' if sort == 'mach' else 'alt', hybrid=bool(rng.random() < 0.2))
        o = options(rng, d)
        o.pop(A + 'ignore_negative_thrust')
        o.pop(A + 'interpolation_method', None)
        o[A + 'global_throttle'] = (True, 'unitless')
        o[A + 'interpolation_sort'] = (sort, 'unitless')
        o[A + 'generate_flight_idle'] = (False, 'unitless')
        o[A + 'num_engines'] = (int(rng.choice([1, 2, 2, 3, 4])), 'unitless')
        n = o[A + 'num_engines'][0]
        if rng.random() < 0.5 and n % 2 == 0:
            o[A + 'num_wing_engines'] = (n, 'unitless')
        else:
            o[A + 'num_fuselage_engines'] = (n, 'unitless')
        L = en.layout(rng, d)
        parts.append((d, o, L, nm))
    replay = {'names': names, 'options': [p[1] for p in parts], 'units': [p[2].units for p in parts]}
    rec.case(('fleet', tuple(names), tuple(str(p[1]) for p in parts)), replay)
    n = 5
    pts = np.zeros((n, 2 + 2 * k))
    top_m = min(max(r['mach'] for r in p[0].given) for p in parts)
    top_a = min(max(r['alt'] for r in p[0].given) for p in parts)
    pts[:, 0] = rng.uniform(0, top_m * 0.95, n)
    pts[:, 1] = rng.uniform(0, top_a * 0.95, n)
    pts[:, 2:2 + k] = rng.uniform(0, 1, (n, k))
    pts[:, 2 + k:] = rng.uniform(0, 0.9, (n, k))
    res = {}
    for pkg in ('aviary_ref', 'aviary'):
        try:
            with vp.quiet(), eval_limit(60):
                engs = [build(pkg, d, L, o, tmp, nm, f'_{i}') for i, (d, o, L, nm) in enumerate(parts)]
                p, av = en.fleet(pkg, engs, None, n)
                res[pkg] = en.fly(p, engs, av, pts), av, engs
        except CaseTimeout:
            raise
        except Exception as ex:
            res[pkg] = ex
    R, C = res['aviary_ref'], res['aviary']
    if isinstance(C, Exception) or isinstance(R, Exception):
        if isinstance(C, Exception) and not isinstance(R, Exception):
            rec.violation(f'fleet: valid engines are rejected ({type(C).__name__})', f'{C!r:.400}', **replay)
        elif isinstance(C, Exception):
            rec.skip('fleet not built')
            rec.stat(f'fleet not built: {C!r:.160}')
        else:
            rec.event('rejection comparison')
        return
    C, av, engs = C
    R = R[0]
    rec.event('comparison with the release', sum(np.size(v) for v in R.values()))
    for q in R:
        if q not in C or not near(C[q], R[q], np.abs(R[q]).max() + 1e-12, 1e-7):
            rec.violation(f'fleet: {q} differs from the release', f'{q} is {np.ravel(C.get(q, np.nan))[:6]}, the release gives {np.ravel(R[q])[:6]}', **replay)
            break
    counts = np.array([p[1][A + 'num_engines'][0] for p in parts])
    rec.event('engine counts')
    if list(np.ravel(av.get_val(A + 'num_engines'))) != list(counts):
        rec.violation('fleet: engine counts', f'{av.get_val(A + "num_engines")} for {counts}', **replay)
    # each type alone, in a problem of its own
    for i, (d, o, L, nm) in enumerate(parts):
        try:
            with vp.quiet(), eval_limit(40):
                e = build('aviary', d, L, o, tmp, nm, f'_{i}')
                p1, av1 = en.fleet('aviary', [e], None, n)
                one = single(p1, e, av1, pts[:, [0, 1, 2 + i, 2 + k + i]])
        except CaseTimeout:
            raise
        except Exception as ex:
            rec.skip('engine alone not built')
            rec.stat(f'alone: {ex!r:.160}')
            continue
        for q in TOTAL.values():
            a, b = C[q][:, i], np.ravel(one[q])
            rec.event('engine type alone and with others', n)
            if not near(a, b, np.abs(b).max() + 1e-9, 1e-9):
                rec.violation(f'fleet: {q} of an engine type depends on the other types', f'engine {nm} (number {i} of {names}): {a}, alone {b}', **replay)
                break
    for t, q in TOTAL.items():
        w = C[q] @ counts
        rec.event('total propulsion', n)
        if not near(C[t], w, np.abs(C[q]).max() * counts.max() + 1e-9, 1e-10):
            rec.violation(f'fleet: {t} is not the sum over types times their counts', f'{C[t]}, the engines give {w}', **replay)
    s = float(np.sum(counts * np.ravel(av.get_val(A + 'scaled_sls_thrust', 'lbf'))))
    sizing(rec, rng, av, engs, counts, replay)


def sizing(rec, rng, av, engs, counts, replay):
    import openmdao.api as om

    from aviary.subsystems.propulsion.propulsion_premission import PropulsionPreMission
    from aviary.variable_info.functions import setup_model_options

    with vp.quiet(), eval_limit(30):
        p = om.Problem(reports=False)
        p.model.add_subsystem('propulsion', PropulsionPreMission(aviary_options=av, engine_models=engs, engine_options={}), promotes=['*'])
        setup_model_options(p, av, engine_models=engs)
        sf = np.round(rng.uniform(0.5, 1.8, len(engs)), 3)
        p.model.set_input_defaults(A + 'scale_factor', sf)
        p.setup(check=False)
        p.set_val(A + 'scale_factor', sf)
        p.set_val(A + 'reference_sls_thrust', np.ravel(av.get_val(A + 'reference_sls_thrust', 'lbf')), units='lbf')
        p.run_model()
        got = np.ravel(p.get_val(A + 'scaled_sls_thrust', units='lbf'))
        tot = float(np.ravel(p.get_val('aircraft:propulsion:total_scaled_sls_thrust', units='lbf'))[0])
    ref = np.ravel(av.get_val(A + 'reference_sls_thrust', 'lbf'))
    rec.event('total thrust')
    if not near(got, ref * sf, np.abs(ref).max(), 1e-9):
        rec.violation('fleet: scaled thrust is not the reference thrust times the factor of the type', f'{got}, {ref * sf}', **replay)
    if not near(tot, float(got @ counts), tot, 1e-10):
        rec.violation('fleet: total thrust is not the sum over types times their counts', f'{tot!r}, {float(got @ counts)!r}', **replay)


def shipped_case(rec, rng, tmp):
    """The engine decks of the release under random options, against the release."""
    import importlib
    from pathlib import Path

    root = Path(importlib.import_module('aviary').__file__).parent / 'models' / 'engines'
    f = str(rng.choice(['turbofan_22k', 'turbofan_23k_1', 'turbofan_24k_1', 'turbofan_24k_2', 'turbofan_28k', 'PAX300_baseline_ENGDEK', 'turbofan_gasp_bwb']))
    d = en.Deck()
    d.hybrid, d.sort = False, str(rng.choice(['mach', 'altitude']))
    o = options(rng, d)
    o[A + 'interpolation_sort'] = (d.sort, 'unitless')
    o[A + 'interpolation_method'] = ('slinear', 'unitless')
    replay = {'deck': f, 'options': o}
    rec.case(('shipped', f, str(o)), replay)
    pts = np.column_stack([rng.uniform(0, 0.85, 12), rng.uniform(0, 39000, 12), rng.uniform(0, 1, 12)])
    res = {}
    for pkg in ('aviary_ref', 'aviary'):
        path = Path(importlib.import_module(pkg).__file__).parent / 'models' / 'engines' / f'{f}.csv'
        try:
            with vp.quiet(), eval_limit(60):
                L = en.Deck()
                L.source = 'file'
                e = en.engine(pkg, d, L, for_pkg(pkg, o), 'engine', str(path))
                p, av = en.fleet(pkg, [e], None, len(pts))
                res[pkg] = single(p, e, av, pts)
        except CaseTimeout:
            raise
        except Exception as ex:
            res[pkg] = ex
    R, C = res['aviary_ref'], res['aviary']
    if isinstance(R, Exception) or isinstance(C, Exception):
        rec.event('rejection comparison')
        if isinstance(R, Exception) != isinstance(C, Exception):
            rec.violation(f'shipped deck: accepted or rejected otherwise ({type(C if isinstance(C, Exception) else R).__name__})', f'the release {R!r:.200}, here {C!r:.200}', **replay)
        return
    rec.event('comparison with the release', sum(np.size(v) for v in R.values()))
    for k in R:
        if k not in C or not near(C[k], R[k], np.abs(R[k]).max() + 1e-12, 1e-7):
            rec.violation(f'shipped deck: {k} differs from the release', f'{np.ravel(C.get(k, np.nan))[:4]}, the release gives {np.ravel(R[k])[:4]}', **replay)
            break


def worker(rec, item):
    kind, seed = item
    rng = np.random.default_rng(seed)
    tmp = tempfile.mkdtemp(prefix='m03_')
    try:
        {'deck': deck_case, 'fleet': fleet_case, 'shipped': shipped_case}[kind](rec, rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one engine deck (generated table, options, layout), one fleet of two or three engine types, or one shipped deck with random options; '
                'the table is read independently and every output is judged at its points, between them, at idle and at full throttle')
    n = chk.pick({'deck': 260, 'fleet': 60, 'shipped': 24}, {'deck': 9000, 'fleet': 2000, 'shipped': 400})
    it = [(k, [chk.seed, ms.hash_of('M03'), ms.hash_of(k), i]) for k in ('shipped', 'fleet', 'deck') for i in range(n[k])]
    chk.pmap(worker, it, timeout=chk.pick(120, 200))
    chk.require('table point', 4000)
    chk.require('point between', 1000)
    chk.require('maximum at a condition', 800)
    chk.require('sizing of the engine', 300)
    chk.require('idle point', 100)
    chk.require('total propulsion', 300)
    chk.require('same deck in another layout', 40)
