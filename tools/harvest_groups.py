"""Records the groups (options, options of their components, promoted inputs) of Aviary's own test problems.

usage: harvest_groups.py TESTMODULE OUTDIR ; then make_groups.py OUTDIR writes data/groups.json.gz
"""
import hashlib
import os
import pickle
import sys
import traceback
import unittest

os.environ.update(TESTFLO_RUNNING='1', OPENMDAO_REPORTS='0', MPLBACKEND='Agg')
import numpy as np
import openmdao.api as om
from openmdao.core.component import Component
from openmdao.core.problem import Problem

argv = sys.argv
sys.argv = argv[:1] + ['-', 'x']
seen = {}


def enc(v):
    from enum import Enum
    from pathlib import Path

    from aviary.utils.aviary_values import AviaryValues

    if isinstance(v, Enum):
        return {'__e': [type(v).__name__, v.name]}
    if isinstance(v, np.ndarray):
        return {'__a': v.tolist() if v.dtype != object else [enc(x) for x in v.tolist()], 'd': str(v.dtype), 's': list(v.shape)}
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    if v is None or isinstance(v, (int, float, str)):
        return v
    if isinstance(v, tuple):
        return {'__t': [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {'__d': [[enc(a), enc(b)] for a, b in v.items()]}
    if isinstance(v, Path):
        return {'__p': str(v)}
    if isinstance(v, AviaryValues):
        return {'__av': [[n, enc(x), u] for n, (x, u) in v]}
    raise TypeError(type(v))


BASE = {'always_opt', 'distributed', 'run_root_only', 'use_jit', 'derivs_method', 'default_shape', 'assembled_jac_type', 'auto_order'}


def options(s, only=None):
    out = {}
    for k in s.options:
        if k in BASE or (only and only not in k):
            continue
        try:
            v = s.options[k]
        except Exception:
            continue
        out[k] = enc(v)
    return out


def harvest(prob):
    for g in prob.model.system_iter(include_self=True, recurse=True, typ=om.Group):
        m = type(g).__module__
        if not m.startswith('aviary.') or '.test' in m:
            continue
        try:
            opts = {}
            for c in g.system_iter(recurse=True, typ=Component):
                opts.update(options(c, ':'))
            opts.update(options(g))
            r = g._resolver
            outs = set(r.prom_iter('output'))
            man = set(g._manual_connections)
            ins, skip = {}, False
            for n in r.prom_iter('input'):
                if '.' in n or n in outs or n in man:
                    continue
                a = r.absnames(n, 'input')[0]
                md = prob.model._var_abs2meta['input'][a]
                if md.get('has_src_indices'):
                    skip = True
                    break
                ins[n] = {'v': np.array(prob.model._inputs._abs_get_val(a)).reshape(md['shape']).tolist(), 'u': md['units']}
            if skip or sum(np.size(v['v']) for v in ins.values()) > 5000:
                continue
        except Exception:
            continue
        key = hashlib.md5(repr((m, type(g).__name__, opts, sorted((k, np.shape(v['v'])) for k, v in ins.items()))).encode()).hexdigest()
        L = seen.setdefault(key, [])
        if len(L) < 3:
            L.append({'cls': type(g).__name__, 'mod': m, 'opts': opts, 'ins': ins})


def wrap(name):
    f = getattr(Problem, name)

    def g(self, *a, **k):
        r = f(self, *a, **k)
        try:
            harvest(self)
        except Exception:
            traceback.print_exc()
        return r

    setattr(Problem, name, g)


for n in ('run_model', 'run_driver'):
    wrap(n)
mod, out = argv[1:3]
os.makedirs(out + '/cwd/' + mod, exist_ok=True)
os.chdir(out + '/cwd/' + mod)
unittest.TextTestRunner(verbosity=0).run(unittest.defaultTestLoader.loadTestsFromName(mod))
pickle.dump(seen, open(f'{out}/{mod}.pkl', 'wb'))
