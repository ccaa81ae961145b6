"""Metadata and hierarchies: unions of generated definitions, conflicts, and the core metadata itself."""
import copy
import importlib
import re

import numpy as np

from vlib import dual
from vlib.missions import hash_of

UNIT = ['unitless', 'ft', 'm', 'lbm', 'kg', 's']


def entry(rng):
    kind = int(rng.integers(6))
    v = [float(np.round(rng.uniform(-5, 50), 3)), int(rng.integers(0, 9)), True, 'text', np.round(rng.uniform(0, 9, 3), 3), None][kind]
    d = {'units': str(rng.choice(UNIT)), 'desc': str(rng.choice(['', 'a thing', 'another thing'])), 'default_value': v,
         'option': bool(rng.integers(2)), 'multivalue': bool(rng.integers(2)),
         'types': [None, float, (float, int), np.ndarray][int(rng.integers(4))] if kind != 3 else str,
         'historical_name': None if rng.random() < 0.5 else {'GASP': 'X.' + str(rng.integers(3)), 'FLOPS': ['A', 'B'] if rng.random() < 0.5 else None}}
    return d


def add(mod, name, meta, e, how='add'):
    kw = copy.deepcopy(e)
    getattr(mod, how + '_meta_data')(name, meta, **kw)


def value_same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def stored_ok(e, got):
    """What add_meta_data says it stores."""
    for k in ('units', 'desc', 'option', 'multivalue', 'historical_name'):
        if got[k] != e[k]:
            return k
    if e['types'] is None and e['default_value'] is not None:
        try:
            w = float(e['default_value'])
        except (TypeError, ValueError):
            w = e['default_value']
        if not value_same(w, got['default_value']) or got['types'] is not type(w):
            return 'default_value'
    elif not value_same(e['default_value'], got['default_value']) or got['types'] != e['types']:
        return 'default_value or types'
    if set(got) != {'units', 'desc', 'option', 'multivalue', 'historical_name', 'default_value', 'types'}:
        return 'fields'
    return None


def meta_worker(rec, seed):
    rng = np.random.default_rng(seed)
    dev = importlib.import_module('aviary.utils.develop_metadata')
    mrg = importlib.import_module('aviary.utils.merge_variable_metadata')
    pool = {f'g:{c}:{i}': entry(rng) for c in 'ab' for i in range(4)}
    k = int(rng.integers(1, 5))
    dicts, model = [], []
    for j in range(k):
        d, m = {}, {}
        for n, e in pool.items():
            if rng.random() < 0.5:
                add(dev, n, d, e)
                m[n] = e
        if rng.random() < 0.5:
            n = f'own:{j}'
            e = entry(rng)
            add(dev, n, d, e)
            m[n] = e
        dicts.append(d)
        model.append(m)
    case = {'names': [sorted(m) for m in model]}
    for d, m in zip(dicts, model):
        rec.event('metadata entry', len(m))
        if set(d) != set(m):
            rec.violation('add_meta_data: names', f'{sorted(d)} instead of {sorted(m)}', case=case)
        for n, e in m.items():
            w = stored_ok(e, d[n])
            if w:
                rec.violation('add_meta_data: ' + w, f'{n}: {d[n]} from {e}', case=case)
    # adding twice raises and leaves the entry
    full = [j for j in range(k) if model[j]]
    if full:
        j = full[int(rng.integers(len(full)))]
        n = sorted(model[j])[0]
        keep = copy.deepcopy(dicts[j])
        rec.event('refused definition')
        try:
            add(dev, n, dicts[j], entry(rng))
            rec.violation('add_meta_data: a name that exists', f'{n} was added again without an error', case=case)
        except ValueError:
            pass
        if not dual.same(dual.norm(keep), dual.norm(dicts[j])):
            rec.violation('add_meta_data: a refused name changes the dictionary', n, case=case)
        rec.event('refused definition')
        try:
            add(dev, 'no:such:name', dicts[j], entry(rng), 'update')
            rec.violation('update_meta_data: a name that does not exist', 'was accepted', case=case)
        except ValueError:
            pass
    conflict = False
    if k > 1 and rng.random() < 0.5:
        # one dictionary changes one field of one of its definitions
        j = int(rng.integers(k))
        shared = [n for n in model[j] if any(i != j and n in model[i] for i in range(k))]
        if shared:
            n = str(rng.choice(shared))
            e = copy.deepcopy(model[j][n])
            f = str(rng.choice(['units', 'desc', 'default_value', 'option', 'multivalue', 'historical_name']))
            if f == 'units':
                e['units'] = 'ft' if e['units'] != 'ft' else 'lbm'
            elif f == 'desc':
                e['desc'] += ' changed'
            elif f == 'default_value':
                v = e['default_value']
                e['default_value'] = v + float(rng.choice([1.5, 0.2, 1e-3, 1e-5])) * (1 if rng.random() < 0.5 else max(1.0, float(np.max(np.abs(v))))) if isinstance(v, (float, np.ndarray)) else 77.25 if not isinstance(v, str) else v + 'x'
                if isinstance(v, np.ndarray) and rng.random() < 0.5:
                    e['default_value'] = v.copy()
                    e['default_value'][-1] += float(rng.choice([0.5, 0.01]))
            elif f in ('option', 'multivalue'):
                e[f] = not e[f]
            else:
                h = dict(e[f] or {})
                how = int(rng.integers(4)) if h else 0
                if how == 1:
                    h.pop('FLOPS')
                elif how == 2:
                    h['LEAPS1'] = 'aircraft.new'
                elif how == 3:
                    h['GASP'] += 'x'
                else:
                    h = {'GASP': 'changed', 'FLOPS': None}
                e[f] = h
            add(dev, n, dicts[j], e, 'update')
            w = stored_ok(e, dicts[j][n])
            if w:
                rec.violation('update_meta_data: ' + w, f'{n}: {dicts[j][n]} from {e}', case=case)
            model[j] = {**model[j], n: e}
            conflict = f
    rec.case(f'meta-{seed[-1]}', {**case, 'conflict': conflict})
    keep = copy.deepcopy(dicts)
    rec.event('merge of metadata')
    try:
        out = mrg.merge_meta_data(dicts)
        err = None
    except Exception as e:
        out, err = None, e
    if not dual.same(dual.norm(keep), dual.norm(dicts)):
        rec.violation('merge_meta_data changes its arguments', '', case=case)
    if conflict and err is None:
        rec.violation(f'merge_meta_data: conflicting {conflict}', 'two different definitions were merged without an error', case=case)
    elif conflict and not isinstance(err, ValueError):
        rec.violation(f'merge_meta_data: conflicting {conflict} is not reported', f'{err!r}', case=case)
    elif not conflict and err is not None:
        rec.violation('merge_meta_data: compatible dictionaries', f'{err!r}', case=case)
    elif out is not None:
        names = set().union(*[set(m) for m in model])
        if set(out) != names:
            rec.violation('merge_meta_data: names', f'{sorted(set(out) ^ names)} only on one side', case=case)
        for n in names & set(out):
            e = next(m[n] for m in model if n in m)
            w = stored_ok(e, out[n])
            if w:
                rec.violation('merge_meta_data: ' + w, f'{n}: {out[n]} from {e}', case=case)
        # what is added to the result does not reach the sources
        add(dev, 'new:after', out, entry(rng))
        if len(out):
            n = sorted(out)[0]
            add(dev, n, out, entry(rng), 'update')
        if not dual.same(dual.norm(keep), dual.norm(dicts)):
            rec.violation('merge_meta_data: the result shares state with its arguments', '', case=case)


# ----------------------------------------------------------------------------- hierarchies
def tree(rng, depth, prefix):
    t = {}
    for c in 'PQR':
        if rng.random() < 0.6:
            t[c] = prefix + ':' + c.lower()
    if depth:
        for c in ('In', 'Jn'):
            if rng.random() < 0.6:
                t[c] = tree(rng, depth - 1, prefix + ':' + c.lower())
    return t


def build(name, t, base=object):
    ns = {}
    for k, v in t.items():
        if isinstance(v, dict):
            b = getattr(base, k, None)
            ns[k] = build(k, v, b if isinstance(b, type) else object)
        else:
            ns[k] = v
    return type(name, (base,), ns)


def read(cls):
    """Everything reachable by attribute access, own or inherited."""
    out = {}
    for c in reversed(cls.__mro__):
        for k, v in vars(c).items():
            if k.startswith('__'):
                continue
            v = getattr(cls, k)
            if isinstance(v, type):
                out[k] = read(v)
            elif isinstance(v, str):
                out[k] = v
    return out


def union(ts):
    out = {}
    for t in ts:
        for k, v in t.items():
            if isinstance(v, dict):
                o = out.setdefault(k, {})
                if not isinstance(o, dict):
                    return None
                u = union([o, v])
                if u is None:
                    return None
                out[k] = u
            elif k in out and out[k] != v:
                return None
            else:
                out[k] = v
    return out


def paths(t, pre=()):
    return {p for k, v in t.items() for p in (paths(v, pre + (k,)) if isinstance(v, dict) else {pre + (k,)})}


def hier_worker(rec, seed):
    rng = np.random.default_rng(seed)
    mrg = importlib.import_module('aviary.utils.merge_hierarchies')
    V = importlib.import_module('aviary.variable_info.variables')
    core = [None, V.Aircraft, V.Mission][int(rng.choice(3, p=[0.5, 0.35, 0.15]))]
    k = int(rng.integers(1, 4))
    ts, cs = [], []
    for j in range(k):
        t = tree(rng, 2, 'x')
        base = object
        if core is not None and rng.random() < 0.8:
            base = core
            inner = [n for n, v in vars(core).items() if isinstance(v, type) and n[0].isupper()]
            n = str(rng.choice(inner))
            t[n] = {f'NEW_{j}': f'x:new_{j}'}
            if rng.random() < 0.5:
                t[n]['NEW_SHARED'] = 'x:new_shared'
        ts.append(t)
        cs.append((f'H{j}', t, base))
    conflict = None
    if k > 1 and rng.random() < 0.4:
        j, i = rng.permutation(k)[:2]
        common = sorted(paths(ts[i]) & paths(ts[j]))
        if common:
            p = common[int(rng.integers(len(common)))]
            d = ts[j] = copy.deepcopy(ts[j])
            for q in p[:-1]:
                d = d[q]
            d[p[-1]] += '_other'
            cs[j] = (cs[j][0], ts[j], cs[j][2])
            conflict = '.'.join(p)
    want = union(ts)
    bases = {b for _, _, b in cs if b is not object}
    classes = [build(*c) for c in cs]
    full = union([read(c) for c in classes])
    rec.case(f'hier-{seed[-1]}', {'trees': ts, 'core': str(core), 'conflict': conflict})
    rec.event('merge of hierarchies')
    before = read(core) if core is not None else None
    case = {'trees': ts, 'core': str(core), 'conflict': conflict}
    try:
        out = mrg.merge_hierarchies(classes)
        err = None
    except ValueError as e:
        out, err = None, e
    if want is None:
        if err is None:
            rec.violation('merge_hierarchies: a conflict is not reported', f'{conflict}', case=case)
        return
    if err is not None:
        rec.violation('merge_hierarchies: compatible hierarchies', repr(err), case=case)
        return
    got = read(out)
    rec.event('hierarchy variable', len(paths(full)))
    lost = paths(full) - paths(got)
    if lost:
        rec.violation('merge_hierarchies: a variable is lost', f'{sorted(lost)[:5]}', case=case)
    new = paths(got) - paths(full)
    if new:
        rec.violation('merge_hierarchies: a variable appears', f'{sorted(new)[:5]}', case=case)
    if not lost and not new and got != full:
        rec.violation('merge_hierarchies: a variable has another name', '', case=case)
    if before is not None and read(core) != before:
        rec.violation('merge_hierarchies changes the core hierarchy', f'{sorted(paths(read(core)) ^ paths(before))[:5]}', case=case)


BARE = re.compile(r'(?<![\w*.])\d+(?:\.\d+)?(?!\s*/)|(?<!\*)\*\d')


def core_worker(rec, _):
    """The core metadata is consistent with the hierarchy and with itself."""
    V = importlib.import_module('aviary.variable_info.variables')
    M = importlib.import_module('aviary.variable_info.variable_meta_data').CoreMetaData
    AV = importlib.import_module('aviary.utils.aviary_values').AviaryValues
    from openmdao.utils.units import valid_units

    tops = {n: getattr(V, n) for n in ('Aircraft', 'Mission', 'Dynamic', 'Settings')}
    names = {}

    def walk(c, path):
        for k, v in vars(c).items():
            if k.startswith('__'):
                continue
            if isinstance(v, type):
                walk(v, path + (k,))
            elif isinstance(v, str):
                rec.event('core metadata')
                if v in names:
                    rec.violation('core: two hierarchy entries with one name', f'{path + (k,)} and {names[v]} are both {v}')
                names[v] = path + (k,)

    for n, c in tops.items():
        walk(c, (n,))
    for v, p in names.items():
        if v not in M:
            rec.violation(f'core: {v} has no metadata', f'{p}')
    for v, m in M.items():
        rec.event('core metadata')
        rec.case('core:' + v)
        if v not in names:
            rec.violation(f'core: {v} is not in the hierarchy', '')
        if not valid_units(m['units']) or BARE.search(m['units']):
            rec.violation(f'core: units of {v}', f'{m["units"]!r}')
        t = m['types']
        if t is None:
            rec.violation(f'core: {v} has no type', '')
            continue
        d = m['default_value']
        if d is not None:
            av = AV()
            try:
                av.set_val(v, d, m['units'])
                g = av.get_item(v)
                if not dual.same(dual.norm(g[0]), dual.norm(d)):
                    rec.violation(f'core: the default of {v} is changed when it is set', f'{d!r} becomes {g[0]!r}')
            except Exception as e:
                rec.violation(f'core: the default of {v} does not fit its metadata', f'{d!r}: {e!r}')


def same_core(rec, _):
    """Lookups in the core metadata and hierarchy say what the release said."""
    dual.judge(rec, 'core metadata', lambda pkg: importlib.import_module(pkg + '.variable_info.variable_meta_data').CoreMetaData, {'what': 'CoreMetaData'},
               describe='core metadata')

    def names(pkg):
        V = importlib.import_module(pkg + '.variable_info.variables')
        return {n: read(getattr(V, n)) for n in ('Aircraft', 'Mission', 'Dynamic', 'Settings')}

    dual.judge(rec, 'core hierarchy', names, {'what': 'hierarchy'}, describe='core hierarchy')


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one set of generated metadata dictionaries or hierarchies (some with one planted conflict) that is merged and compared with the union '
                'of the definitions, or one variable of the core metadata')
    chk.pmap(core_worker, [0], timeout=100)
    chk.pmap(same_core, [0], timeout=100)
    n = chk.pick(4000, 100000)

    def many(rec, part):
        for kind, i in part:
            (meta_worker if kind == 'm' else hier_worker)(rec, [chk.seed, hash_of('D05'), 0 if kind == 'm' else 1, i])

    it = [(k, i) for i in range(n) for k in 'mh']
    chk.pmap(many, [it[i:i + 200] for i in range(0, len(it), 200)], timeout=chk.pick(120, 400))
    chk.require('merge of metadata', 2000)
    chk.require('merge of hierarchies', 2000)
    chk.require('core metadata', 1000)
    chk.require('refused definition', 1000)
