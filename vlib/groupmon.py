"""Whole groups (wiring, promotions, options of a model of several components), built alone and driven at their promoted names."""
import gzip
import json
import time
import warnings

import numpy as np
import openmdao.api as om

from vlib import compmon as cm
from vlib import fidelity
from vlib.core import VERIF, CaseTimeout, EvalTimeout, eval_limit


def load(*prefixes):
    recs = json.loads(gzip.decompress((VERIF / 'data' / 'groups.json.gz').read_bytes()))
    for i, r in enumerate(recs):
        r['id'] = 100000 + i
    return [r for r in recs if any(r['mod'].startswith('aviary.' + p) for p in prefixes)]


def make(rec, pkg, opts):
    cls = cm.find_class(rec, pkg)
    o = {k: cm.dec(v, pkg) for k, v in opts.items()}
    for k, v in o.items():
        if isinstance(v, str) and v.startswith('validation_cases/'):
            o[k] = str(VERIF / 'data' / v.split('/')[-1])
    if rec['cls'].startswith('Motor'):
        o.setdefault('aircraft:engine:motor:data_file', 'models/engines/motors/electric_motor_1800Nm_6000rpm.csv')
    g = cls()
    own = g.options._dict
    for k, v in o.items():
        if k in own and not own[k].get('read_only', False):
            g.options[k] = v
    p = om.Problem(reports=False)
    p.model_options['*'] = {k: v for k, v in o.items() if ':' in k}
    return p, g


class LiveGroup:
    """A group of one package; its inputs are the promoted inputs nothing inside the group provides."""

    def __init__(self, rec, pkg='aviary', opts=None, like=None):
        opts = opts if opts is not None else rec['opts']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p, g = make(rec, pkg, opts)
            p.model.add_subsystem('g', g)
            p.setup(check=False)
            r = g._resolver
            outs = set(r.prom_iter('output'))
            src = p.model._conn_global_abs_in2out
            meta = {}
            for n in r.prom_iter('input'):
                if '.' in n or n in outs:
                    continue
                a = r.absnames(n, 'input')[0]
                if any(not src.get(b, '_auto_ivc.').startswith('_auto_ivc.') for b in r.absnames(n, 'input')):
                    continue
                md = p.model._var_abs2meta['input'][a]
                if md.get('has_src_indices'):
                    raise cm.Gone('slices of inputs')
                meta[n] = (md['shape'], md['units'], np.array(md.get('val', 0.0), float) * np.ones(md['shape']))
            # every input from one source: nothing left to defaults of the components
            p, g = make(rec, pkg, opts)
            ivc = p.model.add_subsystem('ivc', om.IndepVarComp())
            for n, (s, u, v) in meta.items():
                u2 = like.units.get(n, u) if like is not None else u
                ivc.add_output(n, val=v, units=u2)
            p.model.add_subsystem('g', g)
            for n in meta:
                p.model.connect('ivc.' + n, 'g.' + n)
            p.setup(check=False)
            p.set_solver_print(-1)
            p.final_setup()
        self.prob, self.g, self.meta = p, g, meta
        self.inputs = list(meta)
        self.units = {n: (like.units.get(n, u) if like is not None else u) for n, (s, u, v) in meta.items()}
        self.outputs = [n for n in outs if '.' not in n]
        for n in self.outputs:
            a = g._resolver.absnames(n, 'output')[0]
            self.units[n] = p.model._var_abs2meta['output'][a]['units']
        self.implicit = False
        self.start = {a: np.array(v) for a, v in p.model._outputs._abs_item_iter()}

    def fill(self, base):
        d = {n: v.copy() for n, (s, u, v) in self.meta.items()}
        for n, v in base.items():
            if n in d:
                v = np.asarray(v, float)
                d[n] = v.reshape(d[n].shape) if v.size == d[n].size else np.array(np.broadcast_to(v.flat[0], d[n].shape))
        return d

    def run(self, x):
        p = self.prob
        for a, v in self.start.items():
            p.model._outputs.set_var(a, v)  # solvers start from the same place
        for n, v in x.items():
            if n in self.meta:
                p.set_val('ivc.' + n, np.asarray(v).reshape(self.meta[n][0]))
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            p.run_model()
        return {n: np.array(p.get_val('g.' + n)) for n in self.outputs}


class Pair:
    def __init__(self, rec, opts=None):
        self.ref = LiveGroup(rec, 'aviary_ref', opts)
        self.cand, self.cand_error = None, None
        try:
            # (inputs in the units of the reference)
            self.cand = LiveGroup(rec, 'aviary', opts, like=self.ref)
        except (cm.Gone, CaseTimeout):
            raise
        except Exception as e:
            self.cand_error = e

    def run_cand(self, x):
        y = self.cand.run(x)
        return {n: fidelity._convert(v, self.cand.units.get(n), self.ref.units.get(n)) for n, v in y.items()}


def run_record(rec_, item):
    rec, n_in, n_opt, seed, tlim = item
    t_end = time.time() + tlim
    rng = np.random.default_rng([seed, rec['id'], 78])
    configs = [(None, 'recorded options')]
    for _ in range(n_opt * 3):
        o, label = cm.mutate_options(rng, rec)
        if o is not None and label not in [c[1] for c in configs]:
            configs.append((o, label))
        if len(configs) > n_opt:
            break
    configs[1:1] = list(cm.engine_variants(rng, rec, 2 if n_opt < 20 else 8))
    cls = 'group ' + rec['cls']
    smp = [{n: np.array(v, float) for n, v in s.items()} for s in rec['smp']]
    try:
        consts = cm.constants(cm.find_class(rec, 'aviary_ref'), 'aviary_ref')
    except cm.Gone:
        rec_.skip('group no longer exists')
        return
    for ci, (opts, label) in enumerate(configs):
        if time.time() > t_end:
            rec_.skip('time slice used up')
            return
        try:
            pair = Pair(rec, opts)
        except cm.Gone as e:
            rec_.skip('group not judged: ' + str(e)[:40])
            return
        except CaseTimeout:
            raise
        except Exception as e:
            if ci == 0:
                rec_.skip(f'reference could not be built: {cls} {type(e).__name__} {str(e)[-160:]}')
            continue
        ref = pair.ref
        base = ref.fill(smp[0])
        if pair.cand_error is not None:
            try:
                y = ref.run(base)
            except CaseTimeout:
                raise
            except Exception:
                continue
            if cm.finite(y):
                rec_.violation(f'{cls}: cannot be built', f'{label}: {pair.cand_error!r}'[:400], component=cm.name(rec), options=opts or rec['opts'])
            continue
        rec_.seen('groups', f"{rec['mod']}:{rec['cls']}")
        for kind, x in cm.gen_inputs(rng, ref, base, consts, n_in if ci == 0 else max(3, n_in // 3), (), extreme=False):
            if time.time() > t_end:
                rec_.skip('time slice used up')
                return
            try:
                with eval_limit(4):
                    y = ref.run(x)
            except EvalTimeout:
                rec_.skip('the reference did not terminate here')
                break
            except CaseTimeout:
                raise
            except Exception:
                rec_.skip('outside the reference domain')
                continue
            ok = {n: v for n, v in y.items() if np.all(np.isfinite(v))}
            if not ok:
                rec_.skip('outside the reference domain')
                continue
            try:
                with eval_limit(20):
                    z = pair.run_cand(x)
            except CaseTimeout:
                raise
            except Exception as e:
                rec_.violation(f'{cls}: raises', f'{kind}/{label}: {e!r}'[:400], component=cm.name(rec), options=opts or rec['opts'], inputs=x)
                continue
            rec_.event('group comparison', len(ok))
            rec_.case((cm.name(rec), label, kind, round(float(sum(np.sum(v) for v in x.values())), 6)))
            for n in set(ok) - set(z):
                if ':' in n:
                    rec_.violation(f'{cls}: no longer computes {n}', f'{cm.name(rec)} {label}', component=cm.name(rec), options=opts or rec['opts'])
            for n, d in fidelity.compare(pair, x, ok, z, rng, False):
                i = int(np.argmax(np.nan_to_num(np.abs(np.ravel(z[n]) - np.ravel(y[n])), nan=1e300))) if np.size(z[n]) == np.size(y[n]) else 0
                rec_.violation(f'{cls}.{n}', f'{cm.name(rec)} {label} {kind}: {n}={np.ravel(z[n])[i]!r}, reference {np.ravel(y[n])[i]!r} (rel {d:.2e})',
                               component=cm.name(rec), options=opts or rec['opts'], inputs=x, got=z[n], reference=y[n])


def run_groups(chk, prefixes, n_in, n_opt, per_class=None, tlim=10):
    from collections import defaultdict

    by = defaultdict(list)
    for r in load(*prefixes):
        by[r['mod'], r['cls']].append(r)
    recs = []
    for k, l in by.items():
        idx = chk.rng('groups', *k).permutation(len(l))[: per_class or len(l)]
        recs += [l[i] for i in sorted(idx)]
    chk.extra['group_records'] = len(recs)
    chk.pmap(run_record, [(r, n_in, n_opt, chk.seed, tlim) for r in recs], timeout=tlim * 4)
