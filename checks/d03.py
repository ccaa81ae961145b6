"""Vehicle input files: generated files, their meaning by an independent reading, and the options and guesses derived from them."""
import importlib
import os
import re
from enum import Enum

import numpy as np

from vlib import dual
from vlib import prob as vp
from vlib.missions import hash_of

GUESSES = ['actual_takeoff_mass', 'rotation_mass', 'operating_empty_mass', 'fuel_burn_per_passenger_mile', 'cruise_mass_final', 'flight_duration',
           'time_to_climb', 'climb_range', 'reserves']
COMP = {'ft': ['m', 'inch', 'NM'], 'lbm': ['kg', 'slug'], 'ft**2': ['m**2', 'inch**2'], 'deg': ['rad'], 'lbf': ['N', 'kN'], 'inch': ['ft', 'm'], 'ft/s': ['m/s', 'kn'],
        'lbm/h': ['kg/s'], 's': ['h', 'min'], 'NM': ['km', 'ft'], 'm/s': ['ft/s'], 'lbf/ft**2': ['psi', 'Pa'], 'rpm': ['rad/s'], 'hp': ['kW'], 'kn': ['m/s'],
        'psi': ['Pa'], 'ft**3': ['m**3'], 'lbm/ft**2': ['kg/m**2'], 'h': ['s'], 'min': ['s'], 'kW': ['hp'], 'rad': ['deg']}


def meta(pkg='aviary_ref'):
    return importlib.import_module(pkg + '.variable_info.variable_meta_data').CoreMetaData


def api(pkg):
    return importlib.import_module(pkg + '.utils.process_input_decks')


def number(rng):
    r = rng.random()
    if r < 0.25:
        v = int(rng.integers(0, 5000))
        return repr(v), v
    if r < 0.4:
        v = int(rng.integers(0, 500))
        return f'{v}.', float(v)
    if r < 0.55:
        m, e = np.round(rng.uniform(1, 9), 3), int(rng.integers(-6, 7))
        s = f'{m}e{e}' if rng.random() < 0.5 else f'{m}E{e:+d}'
        return s, float(s)
    if r < 0.65:
        m, e = int(rng.integers(1, 9)), int(rng.integers(-3, 6))
        s = f'{m}e{e}'
        return s, float(s)
    v = float(np.round(rng.uniform(-100, 1000), int(rng.integers(0, 7))))
    return repr(v), v


def line_for(rng, name, m):
    """(cells, expected value or None if it has to be refused, units)"""
    t = m['types']
    u = m['units']
    E = t if isinstance(t, type) and issubclass(t, Enum) else None
    multi = m['multivalue'] and rng.random() < 0.6
    n = int(rng.integers(2, 4)) if multi else 1
    cells, vals = [], []
    for _ in range(n):
        if E is not None:
            mem = list(E)[int(rng.integers(len(E)))]
            k = int(rng.integers(3)) if n == 1 else 0
            cells.append(str([mem.value, mem.name, mem.name.lower()][k]))
            vals.append(('enum', E.__name__, mem.name))
        elif t is bool:
            b = bool(rng.integers(2))
            cells.append(str(rng.choice([str(b), str(b).lower(), str(b).upper()])))
            vals.append(b)
        elif t is int:
            v = int(rng.integers(0, 300))
            cells.append(repr(v) if rng.random() < 0.8 else repr(float(v)))
            vals.append(v)
        elif t is str:
            s = str(rng.choice(['some text', 'path/to/file.csv', 'A_name', 'turbofan_28k', 'C:\\deck.csv', 'deck (new).csv']))
            cells.append(s)
            vals.append(s)
        elif t is float or (isinstance(t, tuple) and float in t):
            s, v = number(rng)
            while t is not float and int not in t and isinstance(v, int):
                s, v = number(rng)
            cells.append(s)
            vals.append(float(v) if t is float or int not in t else v)
        else:
            return None
    if E is not None and n > 1:
        return None
    units = u
    if rng.random() < 0.5 and (E is None and t not in (bool, str) or u != 'unitless'):
        units = str(rng.choice(COMP[u])) if u in COMP and rng.random() < 0.6 else u
        cells.append(units)
    elif rng.random() < 0.5 and u == 'unitless':
        cells.append('unitless')
    if multi and rng.random() < 0.5:
        k = n - 1
        cells[0] = '[' + cells[0]
        cells[k] = cells[k] + ']'
    return cells, (vals if n > 1 else vals[0]), units


def spell(rng, name, cells):
    def pad(s):
        return ' ' * int(rng.integers(0, 3)) + s + ' ' * int(rng.integers(0, 3))

    out = ','.join(pad(c) for c in [name, *cells])
    r = rng.random()
    if r < 0.2:
        out += ',' * int(rng.integers(1, 4))
    elif r < 0.4:
        out += '  # a comment, with, commas'
    if rng.random() < 0.1:
        out = ',' + out
    return out


def flat(x):
    if isinstance(x, np.ndarray):
        return [y for v in x.tolist() for y in flat(v)]
    if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and x and x[0] == 'enum'):
        return [y for v in x for y in flat(v)]
    if isinstance(x, Enum):
        return [('enum', type(x).__name__, x.name)]
    return [x]


def deck_worker(rec, seed):
    rng = np.random.default_rng(seed)
    M = meta()
    names = list(M)
    lines, want, guess = [], {}, {}
    for name in rng.choice(names, size=int(rng.integers(3, 25)), replace=False):
        name = str(name)
        for _ in range(2 if rng.random() < 0.15 else 1):
            r = line_for(rng, name, M[name])
            if r is None:
                continue
            cells, v, u = r
            lines.append((name, cells))
            want[name] = (v, u)
    keep_order = [n for n, _ in lines]
    for g in rng.choice(GUESSES + ['initialization_guesses:climb_range', 'initialization_guesses:reserves'], size=int(rng.integers(0, 4)), replace=False):
        s, v = number(rng)
        lines.append((str(g), [s]))
        guess[str(g).split(':')[-1]] = v
    junk = []
    for g in rng.choice(['aircraft:no:such:variable', 'mission:wrong', 'Aircraft:Wing:SPAN', 'just_a_word'], size=int(rng.integers(0, 3)), replace=False):
        lines.append((str(g), ['1.0', 'ft']))
        junk.append(str(g))
    # repeated names keep their order, the rest may move
    pos = rng.permutation(len(lines))
    first = {}
    mixed = [lines[i] for i in pos]
    byname = {}
    for n, c in lines:
        byname.setdefault(n, []).append(c)
    mixed = [(n, byname[n].pop(0)) for n, _ in mixed]
    # the last statement of a guess counts, however it is labelled
    for n, c in mixed:
        k = n.split(':')[-1]
        if k in guess and (n in GUESSES or n.startswith('initialization_guesses:')):
            s = c[0]
            guess[k] = int(s) if re.fullmatch(r'-?\d+', s) else float(s)
    text = []
    for n, c in mixed:
        if rng.random() < 0.15:
            text.append(str(rng.choice(['', '# comment only', ',,,', '   ', '# aircraft:wing:span, 99, ft'])))
        text.append(spell(rng, n, c))
    eol = str(rng.choice(['\n', '\r\n']))
    path = os.path.abspath(f'deck{os.getpid()}.csv')
    with open(path, 'w', newline='') as f:
        f.write(eol.join(text) + (eol if rng.random() < 0.7 else ''))
    case = {'lines': text[:60]}
    rec.case(f'deck-{seed[-1]}', {'lines': text[:5]})
    for n in want:
        rec.seen('variables stated', n)
    verb = int(rng.integers(0, 2))

    def go(pkg):
        return api(pkg).create_vehicle(path, verbosity=verb)

    res = dual.judge(rec, 'reading a vehicle file', go, case, describe='reading a vehicle file:')
    if res is None or not res[1].ok:
        if res is not None and not res[1].ok:
            rec.violation('a valid file is refused', f'{res[1].value!r:.300}', case=case)
        return
    with vp.quiet():
        av, g = api('aviary').create_vehicle(path, verbosity=verb)
        base, g0 = api('aviary').create_vehicle(importlib.import_module('aviary.utils.aviary_values').AviaryValues(), verbosity=verb)
    rec.event('stated value', len(want))
    for n, (v, u) in want.items():
        if n == 'settings:verbosity':
            continue
        if n not in av:
            rec.violation('a stated variable is missing', n, case=case)
            continue
        got, gu = av.get_item(n)
        a, b = flat(got), flat(v)
        if gu != u or not dual.same([dual.norm(x) for x in a], [dual.norm(x) for x in b], 1e-14, 0):
            rec.violation('a stated value is read as another', f'{n}: {got!r} {gu}, the file says {v!r} {u}', case=case)
    extra = set(av.keys()) - set(want) - set(base.keys())
    if extra:
        rec.violation('a variable nobody stated', f'{sorted(extra)}', case=case)
    for n in set(base.keys()) - set(want):
        if not dual.same(dual.norm(av.get_item(n)), dual.norm(base.get_item(n))):
            rec.violation('a default is changed', f'{n}: {av.get_item(n)} instead of {base.get_item(n)}', case=case)
    rec.event('guess', len(guess))
    exp = {**g0, **guess}
    if set(g) != set(exp) or any(not dual.same(dual.norm(g[k]), dual.norm(exp[k])) for k in exp):
        rec.violation('initial guesses', f'{g} instead of {exp}', case=case)
    # the same from data
    data = importlib.import_module('aviary.utils.aviary_values').AviaryValues()
    for n, (v, u) in av.items():
        data.set_val(n, v, u)
    for k, v in guess.items():
        data.set_val('initialization_guesses:' + k, v)
    with vp.quiet():
        av2, g2 = api('aviary').create_vehicle(data, verbosity=verb)
    rec.event('file or data')
    left = [(k, dual.norm(t)) for k, t in av2.items() if not k.startswith('initialization_guesses:')]
    if not dual.same(sorted(left, key=lambda x: x[0]), sorted([(k, dual.norm(t)) for k, t in av.items()], key=lambda x: x[0])) or not dual.same(dual.norm(g2), dual.norm(g)):
        rec.violation('from data another vehicle than from a file', '', case=case)


def bad_worker(rec, seed):
    """A line that cannot be honoured."""
    rng = np.random.default_rng(seed)
    M = meta()
    kind = str(rng.choice(['units', 'text', 'fraction', 'enum', 'list', 'bool', 'empty']))
    pick = {
        'units': lambda m: m['types'] is float and m['units'] not in ('unitless',),
        'text': lambda m: m['types'] is float, 'fraction': lambda m: m['types'] is int,
        'enum': lambda m: isinstance(m['types'], type) and issubclass(m['types'], Enum),
        'list': lambda m: m['types'] in (float, int) and not m['multivalue'], 'bool': lambda m: m['types'] is bool, 'empty': lambda m: True,
    }[kind]
    name = str(rng.choice([n for n, m in M.items() if pick(m)]))
    u = M[name]['units']
    wrong = [x for x in ('kg', 'ft', 's', 'N', 'rad', 'm**2') if x != u and not _fits(x, u)]
    cells = {'units': ['1.5', str(rng.choice(wrong))], 'text': ['abcd'], 'fraction': ['3.7'], 'enum': ['no_such_member'], 'list': ['1', '2', '3'],
             'bool': [str(rng.choice(['maybe', '2.5', '0.3']))], 'empty': []}[kind]
    path = os.path.abspath(f'bad{os.getpid()}.csv')
    with open(path, 'w') as f:
        f.write('aircraft:wing:sweep, 12, deg\n' + spell(rng, name, cells) + '\n')
    rec.case(f'bad-{kind}-{name}', {'line': [name, *cells]})
    rec.event('line that cannot be honoured')
    rec.seen('lines that cannot be honoured', kind)
    try:
        with vp.quiet():
            av, _ = api('aviary').create_vehicle(path, verbosity=0)
        got = av.get_item(name) if name in av else None
        rec.violation(f'a line that cannot be honoured is accepted ({kind})', f'{name}, {cells}: {got!r}', line=[name, *cells])
    except Exception:
        pass


def _fits(a, b):
    from openmdao.utils.units import is_compatible

    try:
        return is_compatible(a, b)
    except Exception:
        return False


def csv_worker(rec, seed):
    """What save_to_csv_file writes reads back as it was."""
    rng = np.random.default_rng(seed)
    M = meta('aviary')
    AV = importlib.import_module('aviary.utils.aviary_values').AviaryValues
    save = importlib.import_module('aviary.utils.aviary_inputs_to_csv').save_to_csv_file
    av = AV()
    for name in rng.choice(list(M), size=int(rng.integers(2, 30)), replace=False):
        name = str(name)
        r = line_for(rng, name, M[name])
        if r is None:
            continue
        _, v, u = r
        if isinstance(v, tuple):
            v = getattr(importlib.import_module('aviary.variable_info.enums'), v[1])[v[2]]
        elif isinstance(v, list) and isinstance(v[0], float) and rng.random() < 0.5:
            v = np.array(v)
        av.set_val(name, v, u)
    path = os.path.abspath(f'saved{os.getpid()}.csv')
    before = dual.norm(av)
    rec.case(f'csv-{seed[-1]}')
    with vp.quiet():
        save(path, av)
        back, _ = api('aviary').parse_inputs(path)
    rec.event('saved and read', len(av))
    if not dual.same(before, dual.norm(av)):
        rec.violation('save_to_csv_file changes the values', '')
    if set(back.keys()) != set(av.keys()):
        rec.violation('saved to csv: names', f'{sorted(set(back.keys()) ^ set(av.keys()))}')
    for n, (v, u) in av.items():
        if n not in back:
            continue
        w, x = back.get_item(n)
        if x != u or not dual.same([dual.norm(q) for q in flat(w)], [dual.norm(q) for q in flat(v)], 1e-14, 0):
            rec.violation('saved to csv: value', f'{n}: {v!r} {u} reads back as {w!r} {x}', variable=n)


def derived_worker(rec, seed):
    """Options and guesses derived from what is stated, whatever the units."""
    rng = np.random.default_rng(seed)
    M = meta()
    spec = {}
    dep = ['aircraft:design:wing_loading', 'aircraft:strut:attachment_location', 'aircraft:wing:fold_mass_coefficient', 'aircraft:wing:folded_span',
           'aircraft:design:part25_structural_category', 'aircraft:horizontal_tail:volume_coefficient', 'aircraft:vertical_tail:volume_coefficient']
    for n in dep:
        if n in M and rng.random() < 0.7:
            if M[n]['types'] is int:
                v = int(rng.integers(-1, 4))
            else:
                v = float(rng.choice([0.0, np.round(rng.uniform(0.2, 3), 3), np.round(rng.uniform(5, 40), 2)]))
            spec[n] = (v, M[n]['units'])
    for n in ('aircraft:wing:has_strut', 'aircraft:wing:has_fold', 'aircraft:wing:choose_fold_location', 'aircraft:strut:dimensional_location_specified'):
        spec[n] = (bool(rng.integers(2)), 'unitless')
    inv = {k: (v, u) for k, (v, u) in spec.items()}
    other = {}
    from openmdao.utils.units import convert_units
    for k, (v, u) in spec.items():
        c = COMP.get(u)
        other[k] = (float(convert_units(v, u, c[0])), c[0]) if c and not isinstance(v, bool) else (v, u)
    rec.case(f'derived-{seed[-1]}', {k: v for k, v in spec.items()})

    def options(pkg, s):
        AV = importlib.import_module(pkg + '.utils.aviary_values').AviaryValues
        av = AV()
        av.set_val('settings:verbosity', 0)
        for k, (v, u) in s.items():
            av.set_val(k, v, u)
        out = api(pkg).update_GASP_options(av)
        return {k: out.get_item(k)[0] for k in out.keys() if isinstance(out.get_item(k)[0], (bool, np.bool_))}

    r = dual.judge(rec, 'dependent options', lambda pkg: options(pkg, spec), {'spec': spec}, describe='options derived from the inputs:')
    if r and r[1].ok:
        rec.event('units of derived options')
        o = dual.call(lambda pkg: options(pkg, other), 'aviary')
        if not o.ok or not dual.same(o.value, r[1].value):
            rec.violation('dependent options: units matter', f'{spec} in other units {other}: {o.value} instead of {r[1].value}', spec=spec)

    # guesses
    k = int(rng.integers(1, 4))
    ga = {'aircraft:design:range': (float(rng.choice([500.0, 2500.0, 5000.0])), 'NM'), 'aircraft:design:cruise_altitude': (float(np.round(rng.uniform(15000, 41000), 1)), 'ft'),
          'aircraft:design:gross_mass': (float(np.round(rng.uniform(2e4, 3e5), 1)), 'lbm'),
          'aircraft:crew_and_payload:design:num_passengers': (int(rng.integers(0, 300)), 'unitless'),
          'mission:reserve_fuel_mass_additional': (float(rng.choice([0.0, 4998.0, 1000.0])), 'lbm'), 'mission:reserve_fuel_margin': (float(rng.choice([0.0, 0.05, 3.0])), 'unitless'),
          'aircraft:crew_and_payload:mass_per_passenger_with_bags': (float(rng.choice([0.0, 225.0, 200.0])), 'lbm'),
          'aircraft:engine:reference_sls_thrust': (np.round(rng.uniform(8e3, 6e4, k), 1), 'lbf'), 'aircraft:engine:scale_factor': (np.round(rng.uniform(0.6, 1.4, k), 3), 'unitless'),
          'aircraft:engine:num_engines': (rng.integers(1, 4, k), 'unitless'), 'settings:verbosity': (0, 'unitless')}
    if rng.random() < 0.5:
        ga['mission:gross_mass'] = (float(rng.choice([0.0, 150000.0, 90000.0])), 'lbm')
    ga[str(rng.choice(['aircraft:design:mach', 'aircraft:design:cruise_mach']))] = (float(np.round(rng.uniform(0.3, 0.88), 3)), 'unitless')
    pt = str(rng.choice(['SIZING', 'OFF_DESIGN_MIN_FUEL', 'OFF_DESIGN_MAX_RANGE']))
    g = {'actual_takeoff_mass': 0, 'rotation_mass': float(rng.choice([0, 0.98, 1.0, 150000.0])), 'operating_empty_mass': float(rng.choice([0, 95000.0])),
         'fuel_burn_per_passenger_mile': float(rng.choice([0, 0.12, -1.0])), 'cruise_mass_final': float(rng.choice([0, 0.85, 120000.0, -1.0])),
         'flight_duration': float(rng.choice([0, 3.5, 9000.0])), 'time_to_climb': float(rng.choice([0, 0.4, 30.0, 1500.0])), 'climb_range': float(rng.choice([0, 120.0])),
         'reserves': float(rng.choice([0, 0.1, 1.5, 4998.0, -5.0], p=[0.4, 0.2, 0.1, 0.25, 0.05]))}

    def guesses(pkg, s):
        AV = importlib.import_module(pkg + '.utils.aviary_values').AviaryValues
        en = importlib.import_module(pkg + '.variable_info.enums')
        av = AV()
        av.set_val('settings:problem_type', en.ProblemType[pt])
        for n, (v, u) in s.items():
            av.set_val(n, v, u)
        return api(pkg).initialization_guessing(av, dict(g), [None] * k)

    r = dual.judge(rec, 'initial guesses', lambda pkg: guesses(pkg, ga), {'inputs': ga, 'guesses': g, 'type': pt}, describe='derived guesses:')
    if r and r[1].ok:
        rec.event('units of guesses')
        oth = {n: ((convert_units(np.asarray(v, float), u, COMP[u][0]), COMP[u][0]) if u in COMP else (v, u)) for n, (v, u) in ga.items()}
        oth = {n: (float(v) if np.ndim(v) == 0 and u != 'unitless' else v, u) for n, (v, u) in oth.items()}
        o = dual.call(lambda pkg: guesses(pkg, oth), 'aviary')
        if not o.ok or not dual.same(o.value, r[1].value, 1e-6):
            rec.violation('initial guesses: units matter', f'{o.value} instead of {r[1].value}', inputs=ga)


def string_worker(rec, seed):
    rng = np.random.default_rng(seed)
    pieces = ['1', '2.5', '-3', '1e3', '1E-4', '.5', '5.', 'True', 'false', 'TRUE', 'abc', '', ' 7', '[3', '4]', '[5]', '+6', '1_000', 'nan', 'inf', '0x10', '1,000', 'None', '007', '1e400']
    s = [str(x) for x in rng.choice(pieces, size=int(rng.integers(1, 5)))]
    if rng.random() < 0.3:
        s = s[0]
    rec.case(f'text-{s}')

    def go(pkg):
        f = importlib.import_module(pkg + '.utils.functions').convert_strings_to_data
        return f(list(s) if isinstance(s, list) else s)

    dual.judge(rec, 'text to data', go, {'text': s}, describe=f'convert_strings_to_data({s!r}):')
    got = dual.call(go, 'aviary')
    rec.event('text to data')
    if got.ok and isinstance(s, str) and re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s):
        if isinstance(got.value, str) or not dual.same(float(got.value), float(s)):
            rec.violation('text to data: a number', f'{s!r} becomes {got.value!r}')


def shipped(rec, _):
    """Every input file the package comes with."""
    from pathlib import Path

    import aviary

    root = Path(aviary.__file__).parent
    ref = Path(importlib.import_module('aviary_ref').__file__).parent
    for f in sorted(root.glob('models/aircraft/**/*.csv')) + sorted(root.glob('validation_cases/benchmark_tests/**/*.csv')) + sorted(root.glob('models/**/*FLOPS*.csv')):
        g = ref / f.relative_to(root)
        if not g.exists():
            continue
        rec.case('shipped:' + f.name)
        dual.judge(rec, f'reading {f.name}', lambda pkg: api(pkg).create_vehicle(str(f if pkg == 'aviary' else g), verbosity=0), {'file': str(f)}, describe=f.name)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one generated vehicle file (random variables, spellings, units, order, comments, repetitions, guesses, junk), one line that cannot be honoured, '
                'one set of values written to csv and read back, one set of inputs for the derived options and guesses, one text, or one shipped file')
    n = chk.pick(1500, 40000)
    fns = {'d': deck_worker, 'b': bad_worker, 'c': csv_worker, 'g': derived_worker, 's': string_worker}

    def many(rec, part):
        for kind, i in part:
            fns[kind](rec, [chk.seed, hash_of('D03' + kind), i])

    it = [(k, i) for i in range(n) for k in fns]
    chk.pmap(many, [it[i:i + 100] for i in range(0, len(it), 100)], timeout=chk.pick(150, 400))
    chk.pmap(shipped, [0], timeout=200)
    chk.require('stated value', 10000)
    chk.require('line that cannot be honoured', 1000)
    chk.require('saved and read', 5000)
    chk.require('units of guesses', 800)
    chk.require('units of derived options', 800)
