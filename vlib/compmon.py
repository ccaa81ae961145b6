"""Monitors over single analysis components.

A corpus record is (class, options, declared inputs, recorded input values) of a component as some
complete model of this repository instantiated it.  Components are built alone, driven directly
(no driver, no transfers) and observed at their own boundary: inputs in, outputs / residuals out,
declared partial derivatives.
"""

import ast
import gzip
import importlib
import inspect
import json
import math
import warnings

import numpy as np
import openmdao.api as om

from vlib.core import VERIF

warnings.simplefilter('ignore')


# ------------------------------------------------------------------------------------------ corpus
def load_corpus(*prefixes):
    recs = json.loads(gzip.decompress((VERIF / 'data' / 'corpus.json.gz').read_bytes()))
    for i, r in enumerate(recs):
        r['id'] = i
    if prefixes:
        recs = [r for r in recs if any(r['mod'].startswith('aviary.' + p) for p in prefixes)]
    return recs


def name(rec):
    return f"{rec['mod']}:{rec['cls']}#{rec['id']}"


def dec(v, pkg):
    if isinstance(v, list):
        return [dec(x, pkg) for x in v]
    if isinstance(v, dict):
        if '__e' in v:
            return getattr(enum_class(v['__e'][0], pkg), v['__e'][1])
        if '__a' in v:
            vals = v['__a']
            if v['d'] == 'object':
                return np.array([dec(x, pkg) for x in vals], dtype=object).reshape(v['s'])
            return np.array(vals, dtype=v['d']).reshape(v['s'])
        if '__t' in v:
            return tuple(dec(x, pkg) for x in v['__t'])
        if '__d' in v:
            return {dec(a, pkg): dec(b, pkg) for a, b in v['__d']}
        if '__p' in v:
            from pathlib import Path

            return Path(v['__p'])
        if '__av' in v:
            av = importlib.import_module(f'{pkg}.utils.aviary_values').AviaryValues()
            for n, x, u in v['__av']:
                av.set_val(n, dec(x, pkg), u)
            return av
    return v


def enum_class(cls, pkg):
    for m in ('variable_info.enums', 'subsystems.propulsion.utils'):
        c = getattr(importlib.import_module(f'{pkg}.{m}'), cls, None)
        if c is not None:
            return c
    raise Gone(cls)


class Gone(Exception):
    """The component of this record does not exist under this name any more."""


_CLASSES = {}


def find_class(rec, pkg):
    mod = pkg + rec['mod'][len('aviary') :]
    try:
        return getattr(importlib.import_module(mod), rec['cls'])
    except (ImportError, AttributeError):
        pass
    # moved within its package?
    import sys

    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith(pkg + '.'):
            c = getattr(m, rec['cls'], None)
            if inspect.isclass(c) and c.__module__.rsplit('.', 2)[0] == mod.rsplit('.', 2)[0]:
                return c
    raise Gone(rec['cls'])


class Live:
    """A component of one package, built alone."""

    def __init__(self, rec, pkg='aviary', opts=None, complex_=False):
        cls = find_class(rec, pkg)
        self.rec = rec
        o = {}
        for k, v in (opts if opts is not None else rec['opts']).items():
            o[k] = dec(v, pkg) if opts is None else dec(v, pkg)
        comp = cls()
        names = set(comp.options._dict)
        o = {k: v for k, v in o.items() if k in names}
        for k, v in o.items():
            if not comp.options._dict[k].get('read_only', False):
                comp.options[k] = v
        self.comp = comp
        self.prob = p = om.Problem(reports=False)
        p.model.add_subsystem('c', comp)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p.setup(force_alloc_complex=complex_)
            p.set_solver_print(-1)
            p.final_setup()
        self.implicit = isinstance(comp, om.ImplicitComponent)
        self.inputs = [n for n in comp._var_rel_names['input']]
        self.outputs = [n for n in comp._var_rel_names['output']]
        self.disc = list(comp._var_discrete['input'])
        meta = comp._var_rel2meta
        self.units = {n: meta[n].get('units') for n in self.inputs + self.outputs}
        self.init_out = {n: np.array(comp._outputs[n]) for n in self.outputs}

    def set(self, vals):
        c = self.comp
        for n in self.inputs:
            if n in vals:
                v = np.asarray(vals[n])
                cur = c._inputs[n]
                if v.shape != np.shape(cur):
                    v = v.reshape(np.shape(cur)) if v.size == np.size(cur) else np.broadcast_to(v, np.shape(cur))
                c._inputs.set_var(n, v)
        for n in self.disc:
            if n in vals:
                c._discrete_inputs[n] = vals[n]

    def run(self, vals=None):
        """Evaluate; explicit: outputs, implicit: residuals at the current outputs."""
        if vals is not None:
            self.set(vals)
        c = self.comp
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            if self.implicit:
                c.run_apply_nonlinear()
                return {n: np.array(c._residuals[n]) for n in self.outputs}
            c.run_solve_nonlinear()
            return {n: np.array(c._outputs[n]) for n in self.outputs}

    def get_inputs(self):
        return {n: np.array(self.comp._inputs[n]) for n in self.inputs}

    def set_outputs(self, vals):
        for n, v in vals.items():
            self.comp._outputs.set_var(n, v)


def samples(rec):
    for s in rec['smp']:
        out = {}
        for n, v in s.items():
            if isinstance(v, dict) or 'disc' in rec['ins'].get(n, {}):
                continue
            out[n] = np.array(v, dtype=float)
        yield out


def fill(live, base):
    """Recorded values, with the declared default for any input this configuration adds."""
    d = {n: np.array(live.comp._var_rel2meta[n]['val'], float) for n in live.inputs if n not in base}
    d.update({n: v for n, v in base.items() if n in live.inputs})
    for n, v in d.items():
        sh = np.shape(live.comp._inputs[n])
        if v.shape != sh:
            d[n] = v.reshape(sh) if v.size == int(np.prod(sh)) else np.array(np.broadcast_to(v.flat[0], sh))
    return d


# ------------------------------------------------------------------------- input generation
_CONST = {}


def constants(cls, pkg):
    """Numeric literals of a component's class (and of the helpers in its module), largest interest first."""
    key = (cls.__module__, cls.__name__)
    if key in _CONST:
        return _CONST[key]
    own, mod = set(), set()
    try:
        tree = ast.parse(inspect.getsource(inspect.getmodule(cls)))
        for node in tree.body:
            tgt = own if isinstance(node, ast.ClassDef) and node.name == cls.__name__ else mod
            if isinstance(node, ast.ClassDef) and node.name != cls.__name__:
                continue
            for n in ast.walk(node):
                if isinstance(n, ast.Compare) or isinstance(n, ast.Call):
                    for q in ast.walk(n):
                        if isinstance(q, ast.Constant) and isinstance(q.value, (int, float)) and not isinstance(q.value, bool):
                            tgt.add((0, float(q.value)))
                elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    tgt.add((1, float(n.value)))
    except Exception:
        pass
    seen, out = set(), []
    for pr, v in sorted(own) + sorted(mod):
        if v not in seen and 1e-6 < abs(v) < 1e9:
            seen.add(v)
            out.append(v)
    _CONST[key] = out
    return out


def gen_inputs(rng, live, base, consts, n, fresh=(), extreme=True):
    """Yield (label, inputs): recorded values, perturbations, one-at-a-time extremes, code constants."""
    names = live.inputs
    yield 'recorded', base
    kinds = ['jitter', 'jitter', 'wide', 'one', 'const', 'fewconst', 'wide1', 'nodeconst']
    for j in range(n):
        kind = kinds[j % len(kinds)]
        x = {k: v.copy() for k, v in base.items()}
        if kind == 'jitter':
            for k in x:
                x[k] = x[k] * rng.uniform(0.75, 1.3, size=x[k].shape)
        elif kind == 'wide':
            for k in x:
                x[k] = x[k] * np.exp(rng.normal(0, 0.9, size=x[k].shape))
        elif kind == 'wide1':
            f = {k: math.exp(rng.normal(0, 0.8)) for k in x}
            for k in x:
                x[k] = x[k] * f[k] * rng.uniform(0.97, 1.03, size=x[k].shape)
        elif kind == 'one' and names:
            for k in x:
                x[k] = x[k] * rng.uniform(0.95, 1.05, size=x[k].shape)
            for k in rng.choice(names, size=min(len(names), 2), replace=False):
                if k in x:
                    x[k] = x[k] * rng.choice([0.0, 0.02, 0.2, 0.5, 2.0, 5.0, 40.0, -1.0] if extreme else [0.2, 0.5, 2.0, 4.0])
        elif kind in ('const', 'fewconst', 'nodeconst') and names:
            pool = list(fresh) if len(fresh) and rng.random() < 0.5 else consts
            if not pool:
                pool = [0.5, 1.0, 2.0, 100.0]
            for k in x:
                x[k] = x[k] * rng.uniform(0.9, 1.1, size=x[k].shape)
            for k in rng.choice(names, size=min(len(names), 1 if kind == 'const' else 3), replace=False):
                if k in x:
                    c = pool[int(rng.integers(len(pool)))]
                    v = c * rng.choice([0.97, 1.03, 0.8, 1.2, 1.0 - 1e-4, 1.0 + 1e-4])
                    if kind == 'nodeconst' and x[k].size > 1:
                        x[k].flat[int(rng.integers(x[k].size))] = v
                    else:
                        x[k] = np.full_like(x[k], v) * rng.uniform(0.999, 1.001, size=x[k].shape)
        yield kind, x


def mutate_options(rng, rec):
    """A variation of a record's options; the reference decides whether it is a valid configuration."""
    o = {k: v for k, v in rec['opts'].items()}
    keys = [k for k, v in o.items() if k not in ('num_nodes',) and v is not None]
    if not keys:
        return None, None
    k = keys[int(rng.integers(len(keys)))]
    v = o[k]

    def mut(v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return max(0, v + int(rng.choice([-2, -1, 1, 2, 3, 50])))
        if isinstance(v, float):
            return float(v * math.exp(rng.normal(0, 0.5)))
        if isinstance(v, dict) and '__e' in v:
            mem = [m.name for m in enum_class(v['__e'][0], 'aviary_ref')]
            return {'__e': [v['__e'][0], mem[int(rng.integers(len(mem)))]]}
        if isinstance(v, dict) and '__a' in v and v['d'][:3] in ('int', 'flo', 'boo'):
            a = np.array(v['__a'], dtype=v['d']).reshape(v['s'])
            if v['d'].startswith('bool'):
                a = ~a
            elif v['d'].startswith('int'):
                a = np.maximum(0, a + rng.integers(-1, 4, size=a.shape))
            else:
                a = a * np.exp(rng.normal(0, 0.4, size=a.shape))
            return {'__a': a.tolist(), 'd': v['d'], 's': v['s']}
        if isinstance(v, dict) and '__t' in v and len(v['__t']) == 2 and isinstance(v['__t'][0], (int, float)):
            return {'__t': [mut(v['__t'][0]), v['__t'][1]]}
        if isinstance(v, list) and v:
            w = list(v)
            i = int(rng.integers(len(w)))
            w[i] = mut(w[i])
            return w
        return None

    nv = mut(v)
    if nv is None or nv == v:
        return None, None
    o[k] = nv
    label = f'{k}={nv}'
    if rng.random() < 0.35 and len(keys) > 1:
        k2 = keys[int(rng.integers(len(keys)))]
        nv2 = mut(o[k2])
        if k2 != k and nv2 is not None and nv2 != o[k2]:
            o[k2] = nv2
            label += f', {k2}={nv2}'
    return o, label


NE = 'aircraft:engine:num_engines'


def engine_variants(rng, rec, n):
    """Configurations with another number of engine types and consistent engine counts."""
    o0 = rec['opts']
    if NE not in o0:
        return
    v0 = o0[NE]
    old = v0['__a'] if isinstance(v0, dict) else v0
    nt0 = len(old)
    for j in range(n):
        # a few engines of several types, many engines, odd counts
        nt = [int(rng.choice([2, 3])), int(rng.choice([1, 4])), 4, int(rng.choice([1, 2, 3, 5]))][j % 4]
        counts = [int(c) for c in rng.choice([1, 2, 2, 3, 4, 6], size=nt)]
        if j % 2 == 0:
            counts = [int(c) for c in rng.choice([1, 1, 2], size=nt)]
        o = dict(o0)

        def resize(v):
            if isinstance(v, list) and len(v) == nt0 and nt0:
                return [v[i % nt0] for i in range(nt)]
            if isinstance(v, dict) and '__a' in v and v['s'][:1] == [nt0]:
                return {'__a': [v['__a'][i % nt0] for i in range(nt)], 'd': v['d'], 's': [nt, *v['s'][1:]]}
            return v

        def ints(vals, like):
            return {'__a': vals, 'd': like['d'], 's': [len(vals)]} if isinstance(like, dict) else list(vals)

        for k, v in o0.items():
            if k.startswith('aircraft:engine:') or k.startswith('aircraft:nacelle:'):
                o[k] = resize(v)
        o[NE] = ints(counts, v0)
        wing = [0] * nt
        if 'aircraft:engine:num_wing_engines' in o0 or 'aircraft:propulsion:total_num_wing_engines' in o0:
            wing = [c - c % 2 if rng.random() < 0.7 else 0 for c in counts]
        fus = [c - w for c, w in zip(counts, wing)]
        for k, vals in (('num_wing_engines', wing), ('num_fuselage_engines', fus)):
            k = 'aircraft:engine:' + k
            if k in o0:
                o[k] = ints(vals, o0[k])
        for k, val in (('total_num_engines', sum(counts)), ('total_num_wing_engines', sum(wing)), ('total_num_fuselage_engines', sum(fus))):
            k = 'aircraft:propulsion:' + k
            if k in o0:
                o[k] = val
        if o != o0:
            yield o, f'engines {counts} (wing {wing})'


def finite(d):
    return all(np.all(np.isfinite(v)) for v in d.values())


def reldiff(a, b):
    """Largest elementwise difference relative to the magnitude of the array."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        if a.size != b.size:
            return np.inf
        a, b = a.ravel(), b.ravel()
    if a.size == 0:
        return 0.0
    sc = np.maximum(np.abs(b), np.max(np.abs(b)) * 1e-6)
    d = np.abs(a - b)
    with np.errstate(all='ignore'):
        r = np.where(d == 0, 0.0, d / np.where(sc == 0, 1e-30, sc))
    return float(np.max(r))
