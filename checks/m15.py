"""A drawn mission profile is saved as the mission it shows (aviary draw_mission)."""
import contextlib
import io
import math
import os
import tempfile
from types import SimpleNamespace
from unittest import mock

import numpy as np
from openmdao.utils.units import convert_units

from vlib.missions import hash_of

TIME, DIST = ['s', 'min', 'h'], ['m', 'km', 'ft', 'mi', 'nmi']


class Var:
    """Stand-in of a tkinter variable."""

    def __init__(self, master=None, value=0, name=None):
        self.v = value

    def get(self):
        return self.v

    def set(self, value):
        self.v = value


def profile(rng):
    n = int(rng.integers(2, 7))
    t0 = 0.0 if rng.random() < 0.6 else float(np.round(rng.uniform(1, 60), 1))
    t = t0 + np.concatenate([[0.0], np.cumsum(np.round(rng.uniform(3, 120, n), 1))])
    alt = [0.0 if rng.random() < 0.5 else float(np.round(rng.uniform(100, 9000), -2))]
    for _ in range(n):
        alt.append(alt[-1] if rng.random() < 0.35 else float(np.round(rng.uniform(0, 40000), -2)))
    mach = np.round(rng.uniform(0.25, 0.88, n + 1), 2)
    if rng.random() < 0.5 and n > 1:
        mach[1:] = mach[1]
    units = [str(rng.choice(TIME)), str(rng.choice(DIST)), 'unitless']
    data = [[float('%.3g' % convert_units(x, 'min', units[0])) for x in t], [float('%.3g' % convert_units(x, 'ft', units[1])) for x in alt], [float(x) for x in mach]]
    if any(b - a <= 0 for a, b in zip(data[0], data[0][1:])):
        return profile(rng)
    return data, units


def near(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def pair_is(p, v, u):
    return isinstance(p, (tuple, list)) and len(p) == 2 and near(p[0], v) and p[1] == u


def judge(rec, pi, data, units, opts, spec, where):
    """The phase information against the drawn points and the chosen options."""
    t, alt, mach = data
    n = len(t) - 1

    def bad(what, msg):
        rec.violation(f'{where}: {what}', msg, spec=spec)

    rec.event('drawn mission')
    names = [k for k in pi if k not in ('pre_mission', 'post_mission')]
    if len(names) != n:
        bad('one phase per leg', f'{n} legs are drawn, phases are {names}')
        return
    if list(pi)[0] != 'pre_mission' or list(pi)[-1] != 'post_mission':
        bad('order of the sections', f'{list(pi)}')
    if pi['pre_mission'].get('include_takeoff') != opts['include_takeoff'] or pi['post_mission'].get('include_landing') != opts['include_landing']:
        bad('takeoff and landing', f'chosen {opts}, written {pi["pre_mission"]} {pi["post_mission"]}')
    if pi['post_mission'].get('constrain_range') != opts['constrain_range']:
        bad('range constraint', f'chosen {opts}, written {pi["post_mission"]}')
    # range: mean speed of each leg at 343 m/s per Mach
    dist = sum((mach[i] + mach[i + 1]) / 2 * 343 * convert_units(t[i + 1] - t[i], units[0], 's') for i in range(n))
    tr = pi['post_mission'].get('target_range')
    if not isinstance(tr, (tuple, list)) or abs(convert_units(float(tr[0]), tr[1], 'm') - dist) > convert_units(0.0051, tr[1], 'm') + 1e-9 * dist:
        bad('target range', f'written {tr}, the drawn legs add to {convert_units(dist, "m", "nmi")} nmi')
    count = {}
    lo = hi = t[0]
    for i, name in enumerate(names):
        ph = pi[name]
        uo = ph['user_options']
        kind = 'climb' if alt[i + 1] > alt[i] else ('descent' if alt[i + 1] < alt[i] else 'cruise')
        count[kind] = count.get(kind, 0) + 1
        rec.event('drawn leg')
        if name != f'{kind}_{count[kind]}':
            bad('name of a phase', f'leg {i} is the {kind} number {count[kind]}, it is named {name}')
        for var, vals, u, flag in (('mach', mach, units[2], opts['mach'][i]), ('altitude', alt, units[1], opts['altitude'][i])):
            for end, v in (('initial', vals[i]), ('final', vals[i + 1])):
                if not pair_is(uo.get(f'{var}_{end}'), v, u):
                    bad(f'{end} {var}', f'{name}: drawn {v} {u}, written {uo.get(f"{var}_{end}")}')
            b = uo.get(f'{var}_bounds')
            m = 0.02 if var == 'mach' else convert_units(500, 'ft', u)
            want = (max(min(vals[i], vals[i + 1]) - m, 0.0) if var == 'altitude' else min(vals[i], vals[i + 1]) - m, max(vals[i], vals[i + 1]) + m)
            if b is None or b[1] != u or not (near(b[0][0], want[0]) and near(b[0][1], want[1])):
                bad(f'bounds of the {var}', f'{name}: drawn {vals[i]} to {vals[i + 1]} {u}, bounds are {b}')
            if bool(uo.get(f'{var}_optimize')) != flag:
                bad(f'{var} optimization', f'{name}: chosen {flag}, written {uo.get(f"{var}_optimize")}')
            if uo.get(f'{var}_polynomial_order') != opts['polynomial_order']:
                bad('polynomial order', f'{name}: chosen {opts["polynomial_order"]}, written {uo.get(f"{var}_polynomial_order")}')
        if uo.get('order') != opts['orders'][i]:
            bad('transcription order', f'{name}: chosen {opts["orders"][i]}, written {uo.get("order")}')
        if uo.get('num_segments') != opts['num_segments']:
            bad('number of segments', f'{name}: {uo.get("num_segments")}')
        if bool(uo.get('distance_solve_segments')) != opts['distance_solve_segments']:
            bad('distance_solve_segments', f'{name}: chosen {opts["distance_solve_segments"]}, written {uo.get("distance_solve_segments")}')
        if uo.get('throttle_enforcement') != ('path_constraint' if i in (0, n - 1) else 'boundary_constraint'):
            bad('throttle enforcement', f'{name} ({i} of {n}): {uo.get("throttle_enforcement")}')
        d = t[i + 1] - t[i]
        g = ph.get('initial_guesses', {}).get('time')
        if g is None or g[1] != units[0] or not (near(g[0][0], t[i]) and near(g[0][1], d, 1e-7)):
            bad('time guess', f'{name}: drawn {t[i]} for {d} {units[0]}, written {g}')
        db, ib = uo.get('time_duration_bounds'), uo.get('time_initial_bounds')
        small = convert_units(0.1, 'min', units[0])
        if db is None or db[1] != units[0] or not (near(db[0][0], max(d / 2, small), 1e-7) and near(db[0][1], 1.5 * d, 1e-7)):
            bad('bounds of the duration', f'{name}: drawn {d} {units[0]}, bounds are {db}')
            return
        if ib is None or ib[1] != units[0] or not (near(ib[0][0], lo, 1e-7) and near(ib[0][1], hi, 1e-7)):
            bad('bounds of the start', f'{name}: starts at {t[i]} {units[0]}, the phases before end between {lo} and {hi}, bounds are {ib}')
            return
        if not (db[0][0] <= d <= db[0][1] and ib[0][0] <= t[i] <= ib[0][1] + 1e-9 * abs(t[i])):
            bad('the drawn mission is outside its bounds', f'{name}: {t[i]} {d} {ib} {db}')
        lo, hi = lo + max(d / 2, small), hi + 1.5 * d


def load(fn):
    ns = {}
    exec(open(fn).read(), ns)
    return ns['phase_info']


def plain(x):
    if isinstance(x, dict):
        return all(plain(k) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return x is None or isinstance(x, (bool, int, float, str))


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


def options(rng, n):
    return {'include_takeoff': bool(rng.integers(2)), 'include_landing': bool(rng.integers(2)), 'constrain_range': bool(rng.integers(2)),
            'distance_solve_segments': bool(rng.integers(2)), 'polynomial_order': int(rng.integers(1, 5)), 'num_segments': n,
            'mach': [bool(x) for x in rng.integers(0, 2, n)], 'altitude': [bool(x) for x in rng.integers(0, 2, n)],
            'orders': [int(x) for x in rng.integers(3, 7, n)]}


def function_worker(rec, seed):
    from aviary.interface import graphical_input as gi
    from aviary.utils.aviary_values import AviaryValues  # noqa

    rng = np.random.default_rng(seed)
    data, units = profile(rng)
    n = len(data[0]) - 1
    o = options(rng, n)
    o['num_segments'] = int(rng.integers(1, 9))
    spec = dict(data=data, units=units, options=o)
    rec.case(hash_of(repr(spec)), None)
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        fn = os.path.join(d, 'p.py')
        before = repr(data)
        pi = gi.create_phase_info(data[0], data[1], data[2], list(units), o['polynomial_order'], o['num_segments'], [Var(value=x) for x in o['mach']],
                                  [Var(value=x) for x in o['altitude']], {k: o[k] for k in ('include_takeoff', 'include_landing', 'constrain_range', 'distance_solve_segments')},
                                  list(o['orders']), filename=fn)
        if repr(data) != before:
            rec.violation('the drawn points are changed', f'{before} became {data}', spec=spec)
        judge(rec, pi, data, units, o, spec, 'phase information')
        rec.event('written file')
        try:
            w = load(fn)
        except Exception as e:
            rec.violation('the written file cannot be loaded', repr(e), spec=spec)
            return
        if not equal(w, pi):
            rec.violation('the written file is another mission', f'{w} for {pi}', spec=spec)
        if not plain(w):
            rec.violation('the written file is not plain data', repr(w), spec=spec)


def editor(gi, data, units, o):
    """The editor without its window."""
    e = object.__new__(gi.AviaryMissionEditor)
    d = e.__dict__
    d.update(data=[list(x) for x in data], num_dep_vars=2, phase_order_list=list(o['orders']), phase_order_default=3, plot_texts=[[], []], table_boolvars=[[], []],
             table_widgets=[], table_strvars=[[], [], []], show_optimize=Var(value=True), show_phase_slope=Var(value=False), point_warning_strvar=Var(value=''),
             mouse_coords_str=Var(value=''))
    d['data_info'] = {'plot_titles': ['a', 'm'], 'labels': ['Time', 'Altitude', 'Mach'], 'units': [Var(value=u) for u in units],
                      'limits': [Var(value=v) for v in (400, 50e3, 1.0)], 'rounding': [Var(value=3) for _ in range(3)]}
    d['advanced_options'] = {k: Var(value=o[k]) for k in ('include_takeoff', 'include_landing', 'constrain_range', 'distance_solve_segments', 'polynomial_order')}
    d['table_boolvars'] = [[Var(value=x) for x in o['altitude']], [Var(value=x) for x in o['mach']]]
    for m in ('redraw_plot', 'update_axes', 'update_header', 'close_window', 'update_str_vars'):
        d[m] = lambda *a, **k: None
    seen = d['seen'] = []

    def table(overwrite=False, bool_list=None):
        seen.append(bool_list)
        rows = len(d['data'][0]) - 1
        if overwrite:
            d['table_boolvars'] = [[Var(value=bool(bool_list[c][r]) if bool_list else False) for r in range(rows)] for c in range(2)]
        else:
            for c in range(2):
                while len(d['table_boolvars'][c]) < rows:
                    d['table_boolvars'][c].append(Var(value=False))

    d['update_table'] = table
    return e


def editor_worker(rec, seed):
    """Histories of edits, saving and opening; the model is the list of points and orders."""
    from aviary.interface import graphical_input as gi

    rng = np.random.default_rng(seed)
    data, units = profile(rng)
    o = options(rng, len(data[0]) - 1)
    spec = dict(data=data, units=units, options=o, history=[])
    rec.case(hash_of(repr(spec)), None)
    e = editor(gi, data, units, o)
    M = {'data': [list(x) for x in data], 'orders': list(o['orders']), 'alt': list(o['altitude']), 'mach': list(o['mach'])}
    tk = SimpleNamespace(BooleanVar=Var, StringVar=Var, IntVar=Var)
    shown = {}
    box = SimpleNamespace(showerror=lambda **k: shown.update(error=k), askyesno=lambda **k: True)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()), mock.patch.object(gi, 'tk', tk), mock.patch.object(gi, 'messagebox', box):
        for step in range(int(rng.integers(2, 9))):
            ops = ['set', 'add', 'delete', 'save', 'save', 'reopen']
            op = str(rng.choice(ops))
            n = len(M['data'][0])
            spec['history'].append(op)
            try:
                if op == 'set':
                    i, axis = int(rng.integers(n)), int(rng.integers(1, 3))
                    v = float(np.round(rng.uniform(0.25, 0.85), 2)) if axis == 2 else float('%.3g' % convert_units(float(rng.uniform(0, 40000)), 'ft', units[1]))
                    e.update_list(str(v), i, axis)
                    M['data'][axis][i] = v
                    if rng.random() < 0.3:
                        e.update_list(str(rng.choice(['-3', 'x', ''])), i, axis)
                elif op == 'add':
                    new = [float('%.3g' % (M['data'][0][-1] * 1.2 + convert_units(9, 'min', units[0]))), float('%.3g' % convert_units(float(rng.uniform(0, 40000)), 'ft', units[1])), 0.55]
                    for axis, v in enumerate(new):
                        e.update_list(index=len(e.data[0]), axis=axis, value=v)
                    e.update_table()
                    for axis, v in enumerate(new):
                        M['data'][axis].append(v)
                    M['orders'].append(3)
                    M['alt'].append(False)
                    M['mach'].append(False)
                elif op == 'delete' and n > 2:
                    i = int(rng.integers(n))
                    e.delete_point(i)
                    for x in M['data']:
                        x.pop(i)
                    # a point in the middle joins two phases; the order of the joined phase is either one's
                    M['orders'].pop(max(i - 1, 0))
                    M['alt'], M['mach'] = [False] * (n - 2), [False] * (n - 2)
                else:
                    fn = os.path.join(tmp, f'{step}.py')
                    e.save(filename=fn)
                    rec.event('saved mission')
                    if not os.path.exists(fn):
                        rec.violation('the mission is not saved', f'{M["data"]}: {shown}', spec=spec)
                        return
                    pi = load(fn)
                    k = len(M['data'][0]) - 1
                    judge(rec, pi, M['data'], units, {**o, 'orders': M['orders'], 'altitude': M['alt'], 'mach': M['mach'], 'num_segments': k}, spec, 'saved mission')
                    if op == 'reopen':
                        other = editor(gi, [[0], [0], [0.3]], ['min', 'ft', 'unitless'], {**options(rng, 1), 'orders': [], 'altitude': [], 'mach': []})
                        with mock.patch.object(gi, 'filedialog', SimpleNamespace(Open=lambda *a, **kw: SimpleNamespace(show=lambda: fn))):
                            other.open_phase_info()
                        e = other
                        rec.event('reopened mission')
                        for a, b, c in zip(e.data, M['data'], ('time', 'altitude', 'mach')):
                            if len(a) != len(b) or not all(near(x, y, 1e-7) for x, y in zip(a, b)):
                                rec.violation(f'reopened mission: {c}', f'saved {b}, opened {a}', spec=spec)
                                return
                        got = [v.get() for v in e.data_info['units']]
                        if got != units:
                            rec.violation('reopened mission: units', f'saved {units}, opened {got}', spec=spec)
                        if list(e.phase_order_list) != M['orders']:
                            rec.violation('reopened mission: orders', f'saved {M["orders"]}, opened {e.phase_order_list}', spec=spec)
                        for key in ('include_takeoff', 'include_landing', 'constrain_range', 'distance_solve_segments', 'polynomial_order'):
                            if e.advanced_options[key].get() != o[key]:
                                rec.violation(f'reopened mission: {key}', f'saved {o[key]}, opened {e.advanced_options[key].get()}', spec=spec)
                        if e.seen and [[bool(x) for x in c] for c in e.seen[-1]] != [M['alt'], M['mach']]:
                            rec.violation('reopened mission: optimize flags', f'saved {M["alt"]} {M["mach"]}, opened {e.seen[-1]}', spec=spec)
            except (AttributeError, RecursionError, NameError) as ex:
                if isinstance(ex, NameError) and not isinstance(ex, AttributeError) and 'np' in str(ex):
                    raise
                rec.skip('the editor needs more of its window than the stand-in has')
                return
            if shown.get('error'):
                rec.violation('a mission going forwards in time is refused', f'{M["data"]}', spec=spec)
                return


def refuse_worker(rec, seed):
    """A mission that goes backwards in time is not saved."""
    from aviary.interface import graphical_input as gi

    rng = np.random.default_rng(seed)
    data, units = profile(rng)
    o = options(rng, len(data[0]) - 1)
    i = int(rng.integers(1, len(data[0])))
    data[0][i - 1], data[0][i] = data[0][i], data[0][i - 1]
    shown = {}
    e = editor(gi, data, units, o)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()), mock.patch.object(
            gi, 'messagebox', SimpleNamespace(showerror=lambda **k: shown.update(error=k), askyesno=lambda **k: True)):
        fn = os.path.join(tmp, 'p.py')
        try:
            e.save(filename=fn)
        except (AttributeError, RecursionError):
            rec.skip('the editor needs more of its window than the stand-in has')
            return
        rec.event('refused mission')
        if os.path.exists(fn) or not shown:
            rec.violation('a mission that goes backwards in time is saved', f'{data[0]}', data=data)


def problem_worker(rec, seed):
    """The written file is accepted as phase information, and its phases are the drawn ones."""
    from aviary.interface import graphical_input as gi
    from vlib import prob as vp

    rng = np.random.default_rng(seed)
    data, units = profile(rng)
    n = len(data[0]) - 1
    o = options(rng, n)
    spec = dict(data=data, units=units, options=o)
    with tempfile.TemporaryDirectory() as d, vp.quiet():
        fn = os.path.join(d, 'p.py')
        gi.create_phase_info(data[0], data[1], data[2], list(units), o['polynomial_order'], 1, [Var(value=x) for x in o['mach']],
                             [Var(value=x) for x in o['altitude']], {k: o[k] for k in ('include_takeoff', 'include_landing', 'constrain_range', 'distance_solve_segments')},
                             list(o['orders']), filename=fn)
        pi = load(fn)
        import aviary.api as av

        p = av.AviaryProblem(verbosity=0)
        try:
            p.load_inputs('models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv', pi, verbosity=0)
        except Exception as e:
            rec.violation('a drawn mission is not accepted', f'{type(e).__name__}: {e}', spec=spec)
            return
        rec.event('accepted mission')
        got = list(p.model.mission_info)
        if got != [k for k in pi if k not in ('pre_mission', 'post_mission')]:
            rec.violation('a drawn mission becomes another one', f'{got}', spec=spec)


def worker(rec, item):
    which, seed = item
    rec.stat('cases ' + which)
    {'function': function_worker, 'editor': editor_worker, 'refuse': refuse_worker, 'problem': problem_worker}[which](rec, seed)


def run(chk):
    import aviary.api  # noqa

    chk.rule = 'one case is one drawn profile (points, units, options) or one history of edits, saving and opening of one; all drawn at random'
    n = chk.pick(150, 3000)
    items = [['function', [chk.seed, 1515, i]] for i in range(n)] + [['editor', [chk.seed, 1516, i]] for i in range(n)]
    items += [['refuse', [chk.seed, 1517, i]] for i in range(n // 6)] + [['problem', [chk.seed, 1518, i]] for i in range(n // 12)]
    chk.pmap(worker, items, timeout=60)
    chk.require('drawn leg', 500)
    chk.require('written file', 100)
