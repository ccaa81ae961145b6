"""Value containers: every operation against a model of what a unit-aware map is."""
import copy
import importlib

import numpy as np

from vlib import dual
from vlib.missions import hash_of

# exact definitions (international foot, avoirdupois pound, ...), kept apart from the package's unit library
FACTOR = {
    'length': {'m': 1.0, 'km': 1e3, 'ft': 0.3048, 'inch': 0.0254, 'mi': 1609.344, 'NM': 1852.0, 'cm': 0.01},
    'mass': {'kg': 1.0, 'lbm': 0.45359237, 'g': 1e-3, 'slug': 14.593902937206364, 't': 1e3},
    'time': {'s': 1.0, 'min': 60.0, 'h': 3600.0, 'ms': 1e-3},
    'speed': {'m/s': 1.0, 'ft/s': 0.3048, 'kn': 1852.0 / 3600, 'mi/h': 0.44704, 'ft/min': 0.00508, 'km/h': 1 / 3.6},
    'force': {'N': 1.0, 'lbf': 4.4482216152605, 'kN': 1e3},
    'area': {'m**2': 1.0, 'ft**2': 0.09290304, 'cm**2': 1e-4},
    'angle': {'rad': 1.0, 'deg': np.pi / 180},
    'pressure': {'Pa': 1.0, 'psi': 6894.757293168361, 'lbf/ft**2': 47.88025898033584},
    'power': {'W': 1.0, 'kW': 1e3, 'hp': 745.6998715822702},
    'none': {'unitless': 1.0},
}
KIND = {u: k for k, d in FACTOR.items() for u in d}


def convert(v, a, b):
    if isinstance(v, (list, tuple)):
        return type(v)(convert(x, a, b) for x in v)
    if v is None:
        return None
    if isinstance(v, np.ndarray) and v.dtype == object:
        return np.array([convert(x, a, b) for x in v], dtype=object)
    k = KIND[a]
    return np.asarray(v, float) * FACTOR[k][a] / FACTOR[k][b]


def eq(a, b, rtol=1e-6):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple, np.ndarray)) and len(a) == len(b) and all(eq(x, y, rtol) for x, y in zip(a, b))
    if b is None or a is None:
        return a is b
    if isinstance(b, (str, bool)):
        return a == b
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 + rtol * np.abs(b)))


def value(rng, kind):
    def num():
        r = rng.random()
        if r < 0.25:
            return int(rng.integers(-50, 5000))
        if r < 0.35:
            return 0.0
        return float(np.round(10 ** rng.uniform(-4, 6) * rng.choice([-1, 1]), 6))

    r = rng.random()
    n = int(rng.integers(1, 5))
    if kind == 'none' and r < 0.15:
        return ['text', True, None, ('a', 'b'), ['x', 1.5]][int(rng.integers(5))]
    if r < 0.4:
        return num()
    if r < 0.55:
        return np.array([num() for _ in range(n)], dtype=float)
    if r < 0.63:
        return np.array([int(rng.integers(-50, 5000)) for _ in range(n)])
    if r < 0.68:
        return rng.uniform(-5, 500, (2, n))
    if r < 0.82:
        return [num() for _ in range(n)]
    if r < 0.92:
        return tuple(num() for _ in range(n))
    if r < 0.95:
        return np.float64(num())
    if r < 0.97:
        return None
    return [num(), None, num()]


def snapshot(m):
    return [(k, copy.deepcopy(v), u) for k, (v, u) in m.items()]


def worker(rec, item):
    cls, seed = item
    rng = np.random.default_rng(seed)
    NV = importlib.import_module('aviary.utils.named_values').NamedValues
    AV = importlib.import_module('aviary.utils.aviary_values').AviaryValues
    C = NV if cls == 'NamedValues' else AV
    core = None
    if C is AV:
        M = importlib.import_module('aviary.variable_info.variable_meta_data').CoreMetaData
        core = [k for k, m in M.items() if m['types'] is float and m['units'] in KIND]
    names = [f'v{i}' for i in range(6)] + (['x:' + c for c in 'abc'])
    if core:
        names += [str(x) for x in rng.choice(core, size=8, replace=False)]
        M0 = M
    boxes = [(C(), {})]
    trail = []

    def bad(what, msg):
        rec.violation(f'{cls}: {what}', msg, operations=trail[-14:])

    def check(i, what):
        box, model = boxes[i]
        rec.event('container state')
        got = [(k, v, u) for k, (v, u) in box.items()]
        want = list(model.items())
        if [g[0] for g in got] != [w[0] for w in want]:
            return bad(f'{what}: names or their order', f'{[g[0] for g in got]} instead of {[w[0] for w in want]}')
        for (k, v, u), (_, (w, x)) in zip(got, want):
            if u != x or not eq(v, w, 1e-12):
                return bad(f'{what}: stored item', f'{k} is {(v, u)!r}, what was written is {(w, x)!r}')

    for step in range(int(rng.integers(15, 45))):
        i = int(rng.integers(len(boxes)))
        box, model = boxes[i]
        op = str(rng.choice(['set', 'get', 'get', 'item', 'copy', 'deepcopy', 'delete', 'update', 'iter', 'eq', 'badset', 'badget', 'contains', 'clear', 'init'],
                            p=[0.24, 0.12, 0.08, 0.06, 0.06, 0.04, 0.07, 0.1, 0.04, 0.05, 0.05, 0.03, 0.03, 0.01, 0.02]))
        name = str(rng.choice(names))
        rec.seen('operations', f'{cls}.{op}')
        if op == 'set':
            if core and name in M0:
                u = str(rng.choice(list(FACTOR[KIND[M0[name]['units']]])))
                kind = KIND[u]
                v = value(rng, 'number')
                while v is None or (isinstance(v, list) and None in v) or isinstance(v, np.ndarray) and v.ndim > 1 \
                        or (not M0[name]['multivalue'] and isinstance(v, (list, tuple, np.ndarray))):
                    v = value(rng, 'number')
            else:
                kind = str(rng.choice(list(FACTOR)))
                u = str(rng.choice(list(FACTOR[kind])))
                v = value(rng, kind)
            trail.append((op, i, name, repr(v), u))
            keep = copy.deepcopy(v)
            if u == 'unitless' and rng.random() < 0.5:
                box.set_val(name, v)
            else:
                box.set_val(name, v, u) if rng.random() < 0.5 else box.set_val(key=name, val=v, units=u)
            if not eq(v, keep, 0) or type(v) is not type(keep):
                bad('set changed the value passed in', f'{keep!r} became {v!r}')
            model[name] = (keep, u)
        elif op in ('get', 'item', 'contains'):
            trail.append((op, i, name))
            if op == 'contains':
                rec.event('read')
                if (name in box) != (name in model):
                    bad('membership', f'{name} in container: {name in box}, expected {name in model}')
                continue
            if name not in model:
                rec.event('read')
                try:
                    r = box.get_item(name) if op == 'item' else box.get_val(name)
                    bad('unknown name', f'{op} of {name} returned {r!r}')
                except KeyError:
                    pass
                continue
            v, u = model[name]
            if op == 'item':
                rec.event('read')
                g = box.get_item(name)
                if g[1] != u or not eq(g[0], v, 1e-12):
                    bad('get_item', f'{name}: {g!r}, written {(v, u)!r}')
                continue
            text = isinstance(v, (str, bool)) or (isinstance(v, (list, tuple)) and any(isinstance(x, (str, bool)) for x in v))
            w = u if text else str(rng.choice(list(FACTOR[KIND[u]])))
            rec.event('read in units')
            rec.seen('unit conversions', f'{u}->{w}')
            try:
                g = box.get_val(name, w)
            except Exception as e:
                bad('get_val fails', f'{name} = {v!r} {u} in {w}: {e!r}')
                continue
            want = v if w == u else convert(v, u, w)
            if not eq(g, want):
                bad('get_val in other units' if w != u else 'get_val', f'{name} = {v!r} {u} read in {w}: {g!r}, expected {want!r}')
            elif w != u and isinstance(v, (list, tuple, np.ndarray)) and type(g) is not type(v):
                bad('get_val changes the type', f'{name} = {v!r} {u} read in {w}: {g!r}')
        elif op == 'copy' or op == 'deepcopy':
            trail.append((op, i))
            new = getattr(box, op)()
            if type(new) is not C:
                bad(op + ' has another type', repr(type(new)))
                continue
            boxes.append((new, dict(model)))
            check(len(boxes) - 1, op)
            if op == 'deepcopy':
                # values are not shared either
                for k, (v, u) in new.items():
                    if isinstance(v, np.ndarray) and v.size and v.dtype.kind == 'f':
                        old = box.get_item(k)[0]
                        v[...] = v + 1.0
                        rec.event('shared state')
                        if not eq(old, model[k][0], 1e-12):
                            bad('deepcopy shares values', f'changing {k} of the deep copy changed the original')
                        v[...] = v - 1.0
                        boxes[-1][1][k] = (v.copy(), u)
        elif op == 'delete':
            trail.append((op, i, name))
            if name in model:
                box.delete(name)
                del model[name]
            else:
                try:
                    box.delete(name)
                    bad('delete of an unknown name', f'{name} did not raise')
                except KeyError:
                    pass
        elif op in ('update', 'init'):
            j = int(rng.integers(len(boxes)))
            ob, om_ = boxes[j]
            form = str(rng.choice(['same', 'dict', 'pairs', 'kwargs']))
            trail.append((op, i, j, form))
            rec.seen('operations', f'{cls}.{op}({form})')
            if form == 'kwargs':
                kv = {f'v{q}': (value(rng, 'number'), 'ft') for q in range(2)}
                arg, kw, items = None, kv, kv
            else:
                items = dict(om_)
                arg = ob if form == 'same' else (dict(items) if form == 'dict' else [(k, t) for k, t in items.items()])
                kw = {}
            if op == 'init':
                new, nm = C(arg, **kw), {}
                boxes.append((new, nm))
                nm.update(items)
                check(len(boxes) - 1, 'construction')
            else:
                box.update(arg, **kw)
                for k, t in items.items():
                    model[k] = t
        elif op == 'iter':
            trail.append((op, i))
            rec.event('read')
            if [k for k, _ in box] != list(model) or list(box.keys()) != list(model) or len(box) != len(model) or len(list(box.values())) != len(model):
                bad('iteration', f'{[k for k, _ in box]} instead of {list(model)}')
        elif op == 'eq':
            trail.append((op, i))
            rec.event('comparison')
            simple = all(not isinstance(v, np.ndarray) and not (isinstance(v, (list, tuple)) and any(isinstance(x, np.ndarray) for x in v)) for v, _ in model.values())
            if not simple:
                continue
            other = C(list(box.items()))
            if not (box == other) or box != other:
                bad('equality', 'a container with the same items is not equal')
            if model:
                k = list(model)[int(rng.integers(len(model)))]
                v, u = model[k]
                other = C(list(box.items()))
                other.delete(k)
                if box == other or other == box:
                    bad('equality', f'equal without {k}')
                other = box.copy()
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    other.set_val(k, v + 1, u)
                    if box == other:
                        bad('equality', f'equal with another {k}')
        elif op == 'badset':
            trail.append((op, i, name))
            rec.event('failed operation')
            before = snapshot(model)
            units = [None, 3, ('ft',)][int(rng.integers(3))]
            if core and name in M0 and rng.random() < 0.7:
                units = ['s' if KIND[M0[name]['units']] != 'time' else 'kg', 'notaunit'][int(rng.integers(2))]
            try:
                box.set_val(name, 1.0, units)
                bad('invalid units are accepted', f'{name} in {units!r}')
            except Exception:
                pass
        elif op == 'badget':
            trail.append((op, i, name))
            rec.event('failed operation')
            if name in model:
                v, u = model[name]
                if isinstance(v, (str, bool)) or v is None:
                    continue
                for w in (None, 'kg' if KIND[u] != 'mass' else 's', 'notaunit'):
                    try:
                        r = box.get_val(name, w)
                        if isinstance(v, (list, tuple)) and all(x is None for x in v):
                            continue
                        bad('reading in incompatible units', f'{name} = {v!r} {u} read in {w!r}: {r!r}')
                    except Exception:
                        pass
        elif op == 'clear':
            trail.append((op, i))
            box.clear()
            model.clear()
        check(i, op)
        # no operation reaches another container
        j = int(rng.integers(len(boxes)))
        if j != i:
            check(j, f'another container after {op}')
        if len(boxes) > 5:
            boxes.pop(0)
    rec.case(f'{cls}-{seed}', {'steps': trail[:4]})


def run(chk):
    import aviary.api  # noqa

    chk.rule = ('one case is one random history of 15-45 operations on up to six containers; after every operation the container it touched and '
                'a random other one are compared, item by item and in order, with a model map that does its own unit conversion')
    n = chk.pick(1500, 40000)
    it = [(c, [chk.seed, hash_of('D01'), k, i]) for i in range(n) for k, c in enumerate(('NamedValues', 'AviaryValues'))]
    chunks = [it[i:i + 50] for i in range(0, len(it), 50)]

    def many(rec, part):
        for x in part:
            worker(rec, x)

    chk.pmap(many, chunks, timeout=chk.pick(120, 600))
    chk.require('container state', 20000)
    chk.require('read in units', 2000)
    chk.require('failed operation', 500)
