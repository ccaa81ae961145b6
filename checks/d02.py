"""Typed and unit-checked inputs: every variable of the hierarchy given every kind of value."""
import copy
import importlib
from enum import Enum

import numpy as np

from vlib import dual
from vlib.missions import hash_of

UNITS = ['unitless', 'ft', 'm', 'inch', 'NM', 'lbm', 'kg', 's', 'h', 'min', 'ft**2', 'm**2', 'lbf', 'N', 'deg', 'rad', 'kn', 'm/s', 'ft/s', 'ft/min',
         'lbm/h', 'kg/s', 'psi', 'Pa', 'lbf/ft**2', 'hp', 'kW', 'rpm', 'rad/s', 'degR', 'degK', 'degC', 'ft**3', 'm**3', '1/rad', '1/deg', 'lbm/ft**2', 'kg/m**2', 'galUS', 'L', 'kJ', 'W*h']


def metas(pkg):
    return importlib.import_module(pkg + '.variable_info.variable_meta_data').CoreMetaData


def types_of(m):
    t = m['types']
    return t if isinstance(t, tuple) else (t,)


def enum_of(m):
    for t in types_of(m):
        if isinstance(t, type) and issubclass(t, Enum):
            return t
    return None


def scalar(rng, m, E):
    """(label, value as plain data; enumeration members as ('enum', class, name))"""
    r = rng.integers(14)
    if E is not None and r < 8:
        mem = list(E)[int(rng.integers(len(E)))]
        k = int(rng.integers(6))
        if k == 0:
            return 'member', ('enum', E.__name__, mem.name)
        if k == 1:
            return 'name', mem.name
        if k == 2:
            return 'lower name', mem.name.lower()
        if k == 3:
            return 'value', mem.value
        if k == 4:
            return 'mixed name', mem.name.capitalize()
        return 'no such name', 'no_' + mem.name
    if r == 0:
        return 'int', int(rng.integers(-3, 400))
    if r == 1:
        return 'integral float', float(rng.integers(-3, 400))
    if r == 2:
        return 'float', float(np.round(rng.uniform(0.1, 900), 4) + 0.00005)
    if r == 3:
        return 'bool', bool(rng.integers(2))
    if r == 4:
        return 'np.bool', np.bool_(rng.integers(2))
    if r == 5:
        return 'np.int', np.int64(rng.integers(0, 300))
    if r == 6:
        return 'np.float', np.float64(np.round(rng.uniform(0.1, 900), 4) + 0.00005)
    if r == 7:
        return 'numeric text', str(np.round(rng.uniform(0.1, 90), 3))
    if r == 8:
        return 'text', 'some text'
    if r == 9:
        return 'none', None
    if r == 10:
        return 'dict', {'a': 1}
    if r == 11:
        return 'complex', 1 + 2j
    if r == 12:
        return 'int text', str(rng.integers(0, 50))
    return 'small', float(10 ** rng.uniform(-12, -3))


def value(rng, m, E):
    r = rng.random()
    if r < 0.5:
        return scalar(rng, m, E)
    n = int(rng.integers(0, 4)) if rng.random() < 0.2 else int(rng.integers(1, 4))
    if r < 0.85:
        lab, v = scalar(rng, m, E)
        items = [v] * n
        if rng.random() < 0.7:
            for i in range(1, n):
                l2, w = scalar(rng, m, E)
                if l2 == lab or rng.random() < 0.2:
                    items[i] = w
                    lab = lab if l2 == lab else 'mixed'
        form = str(rng.choice(['list', 'tuple', 'array']))
        return f'{form} of {lab}', (form, items)
    if r < 0.93:
        return 'matrix', ('array', rng.uniform(0, 9, (2, max(n, 1))).tolist())
    return 'nested', ('list', [[1.0, 2.5], [3.0, 4.0]])


def realize(v, pkg):
    if isinstance(v, tuple) and v and v[0] == 'enum':
        en = importlib.import_module(pkg + '.variable_info.enums')
        return getattr(en, v[1])[v[2]]
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ('list', 'tuple', 'array'):
        x = [realize(i, pkg) for i in v[1]]
        return x if v[0] == 'list' else (tuple(x) if v[0] == 'tuple' else np.array(x))
    return copy.deepcopy(v)


def expected(m, E, lab, v):
    """'ok' with the value to be read back, 'bad', or None where the property says nothing."""
    T = types_of(m)

    def one(lab, v):
        if E is not None:
            if lab == 'member':
                return ('ok', v)
            if lab in ('name', 'lower name', 'mixed name'):
                return ('ok', ('enum', E.__name__, v.upper()))
            if lab == 'value':
                return ('ok', ('enum', E.__name__, E(v).name))
            if lab == 'no such name':
                return ('bad', None)
            return None
        if T == (float,):
            if lab in ('int', 'integral float', 'float', 'np.int', 'np.float', 'small'):
                return ('ok', float(v))
            if lab in ('text', 'none', 'dict', 'complex'):
                return ('bad', None)
        if T == (int,):
            if lab in ('int', 'np.int', 'integral float'):
                return ('ok', int(v))
            if lab in ('float', 'np.float', 'small', 'text', 'none', 'dict', 'complex', 'bool', 'np.bool'):
                return ('bad', None) if lab not in ('np.bool',) else None
        if T == (bool,):
            if lab == 'bool':
                return ('ok', v)
            if lab in ('int', 'integral float', 'float', 'text', 'none', 'dict', 'small', 'numeric text'):
                return ('bad', None)
        if T == (str,) and lab in ('text', 'int text', 'numeric text'):
            return ('ok', v)
        return None

    if isinstance(v, tuple) and len(v) == 2 and v[0] in ('list', 'tuple', 'array'):
        if not m['multivalue'] and T in ((float,), (int,), (bool,)):
            return ('bad', None) if v[1] else None
        if ' of ' in lab and lab.split(' of ')[1] != 'mixed' and v[1]:
            rs = [one(lab.split(' of ')[1], x) for x in v[1]]
            if m['multivalue'] and all(r is not None and r[0] == 'ok' for r in rs) and not (E is not None and 'member' not in lab):
                return ('ok', [r[1] for r in rs])
            if m['multivalue'] and T in ((float,), (int,), (bool,)) and all(r is not None and r[0] == 'bad' for r in rs) and 'none' not in lab and 'bool' not in lab:
                return ('bad', None)
        return None
    return one(lab, v)


def flat(x):
    if isinstance(x, tuple) and len(x) == 3 and x[0] in ('enum', 'array'):
        return [x] if x[0] == 'enum' else [y for i in x[2] for y in flat(i)]
    if isinstance(x, tuple) and len(x) == 2 and x[0] in ('tuple', 'list'):
        return [y for i in x[1] for y in flat(i)]
    if isinstance(x, list):
        return [y for i in x for y in flat(i)]
    return [x]


def worker(rec, item):
    names, seed = item
    rng = np.random.default_rng(seed)
    M = metas('aviary')
    AVs = {pkg: importlib.import_module(pkg + '.utils.aviary_values').AviaryValues for pkg in dual.PKGS}
    for name in names:
        m = M.get(name)
        if m is None:
            continue
        E = enum_of(m)
        lab, v = value(rng, m, E)
        declared = m['units']
        r = rng.random()
        unit = declared if r < 0.5 else str(rng.choice(UNITS)) if r < 0.9 else ['notaunit', None, 5, 'ft*'][int(rng.integers(4))]
        case = {'variable': name, 'value': repr(v), 'kind': lab, 'units': unit}
        rec.case(f'{name}|{lab}|{unit}|{v!r}'[:120], case)
        rec.seen('kinds of values', lab)
        before = float(np.round(rng.uniform(1, 50)))
        keep = {}

        def go(pkg):
            av = AVs[pkg]()
            av.set_val('other:variable', before, 'ft')
            x = realize(v, pkg)
            keep[pkg] = (av, x, copy.deepcopy(x))
            av.set_val(name, x, unit)
            return av.get_item(name)

        res = dual.judge(rec, 'setting an input', go, case, describe=f'{name} = {v!r} in {unit!r}:')
        if res is None:
            continue
        c = res[1]
        av, x, x0 = keep['aviary']
        if c.ok is False:
            rec.event('failed set')
            if name in av or av.get_val('other:variable', 'ft') != before or len(av) != 1:
                rec.violation('a failed set stores something', f'{name} = {v!r} in {unit!r} raised, but the container holds {list(av.items())!r:.300}', case=case)
        if dual.norm(x) != dual.norm(x0) and repr(x) != repr(x0):
            rec.violation('setting changes the value passed in', f'{x0!r} became {x!r}', case=case)
        # the rule
        try:
            from openmdao.utils.units import is_compatible, valid_units
            fits = isinstance(unit, str) and valid_units(unit) and is_compatible(declared, unit)
        except Exception:
            fits = False
        want = expected(m, E, lab, v)
        if not fits:
            rec.event('units rule')
            if c.ok:
                rec.violation('incompatible units are accepted', f'{name} (declared {declared}) = {v!r} in {unit!r} is stored as {c.value!r}', case=case)
        elif want is not None:
            rec.event('type rule')
            if want[0] == 'bad' and c.ok:
                rec.violation('a value of a type the metadata does not allow is accepted' + (': complex array' if lab == 'array of complex' else ''), f'{name} ({m["types"]}, multivalue {m["multivalue"]}) = {v!r} is stored as {c.value!r}', case=case)
            elif want[0] == 'ok' and not c.ok:
                rec.violation('a valid value is rejected', f'{name} ({m["types"]}, multivalue {m["multivalue"]}) = {v!r} in {unit}: {c.value!r}', case=case)
            elif want[0] == 'ok':
                got = c.value[1]
                g, w = flat(got[0]), flat(want[1])
                if not dual.same(g, w, 1e-15) or [type(a) for a in g] != [type(a) for a in w] or got[1] != unit:
                    rec.violation('the stored value is another one', f'{name} = {v!r} {unit} is stored as {got!r}', case=case)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one variable of the core metadata with one value (of one of many kinds: numbers, text, members, lists, arrays, nested) and one units '
                'string; acceptance, the stored item and the container after a failure are judged by the stated rule and against the release')
    names = sorted(metas('aviary_ref'))
    rng = chk.rng('D02')
    special = [n for n in names if types_of(metas('aviary_ref')[n]) != (float,)]
    rounds = chk.pick(25, 700)
    it = []
    for k in range(rounds):
        pool = names + special * 5
        order = rng.permutation(len(pool))
        for j in range(0, len(pool), 200):
            it.append(([pool[i] for i in order[j:j + 200]], [chk.seed, hash_of('D02'), k, j]))
    chk.pmap(worker, it, timeout=chk.pick(120, 400))
    chk.require('type rule', 4000)
    chk.require('units rule', 2000)
    chk.require('failed set', 4000)
