"""Monitor: a component's outputs equal those of the pinned reference model on the same inputs."""

import numpy as np
from openmdao.utils.units import convert_units

from vlib import compmon as cm
from vlib.core import CaseTimeout, EvalTimeout, eval_limit

RTOL = 1e-6
RULE = (
    "a case is one component instance (class, options) at one generated input point, judged on every output the "
    "reference finds finite"
)


def _convert(v, u1, u2):
    if u1 == u2 or u1 is None or u2 is None:
        return v
    return convert_units(v, u1, u2)


class Pair:
    """The component under test and its reference counterpart, driven with the same physical inputs."""

    def __init__(self, rec, opts=None):
        self.ref = cm.Live(rec, 'aviary_ref', opts)
        self.cand_error = None
        try:
            self.cand = cm.Live(rec, 'aviary', opts)
        except (cm.Gone, CaseTimeout):
            raise
        except Exception as e:
            self.cand = None
            self.cand_error = e

    def run_cand(self, x):
        c = self.cand
        xi = {n: _convert(v, self.ref.units.get(n), c.units.get(n)) for n, v in x.items() if n in c.inputs}
        y = c.run(xi)
        return {n: _convert(v, c.units.get(n), self.ref.units.get(n)) for n, v in y.items()}


def compare(pair, x, y, z, rng, implicit):
    """Outputs of z that differ from y by more than the conditioning of the reference explains."""
    bad = []
    for n in y:
        if n not in z:
            continue
        d = cm.reldiff(z[n], y[n])
        if not d <= RTOL:
            bad.append((n, d))
    if not bad:
        return []
    # conditioning / discontinuity at this point: perturb the inputs by 1e-9 both ways
    spread = {n: 0.0 for n, _ in bad}
    for sgn in (1, -1, 0, 0):
        xp = {k: v * (1 + 1e-9 * (sgn if sgn else rng.choice([-1, 1], size=v.shape))) for k, v in x.items()}
        yp = pair.ref.run(xp)
        for n, _ in bad:
            dd = cm.reldiff(yp[n], y[n])
            spread[n] = max(spread[n], dd if np.isfinite(dd) else 1.0)
    return [(n, d) for n, d in bad if not d <= RTOL + 50 * spread[n]]


def run_record(rec_, item):
    """One corpus record: recorded and mutated options, generated inputs."""
    rec, n_in, n_opt, seed, tlim = item
    import time

    t_end = time.time() + tlim
    rng = np.random.default_rng([seed, rec['id'], 77])
    configs = [(None, 'recorded options')]
    for _ in range(n_opt * 3):
        o, label = cm.mutate_options(rng, rec)
        if o is not None and label not in [c[1] for c in configs]:
            configs.append((o, label))
        if len(configs) > n_opt:
            break
    configs[1:1] = list(cm.engine_variants(rng, rec, 4 if n_opt < 20 else 8))
    cls = rec['cls']
    try:
        fresh = set(cm.constants(cm.find_class(rec, 'aviary'), 'aviary')) - set(
            cm.constants(cm.find_class(rec, 'aviary_ref'), 'aviary_ref')
        )
        consts = cm.constants(cm.find_class(rec, 'aviary_ref'), 'aviary_ref')
    except cm.Gone:
        rec_.skip('component no longer exists')
        return
    fresh = sorted(fresh)
    smp = list(cm.samples(rec))
    for ci, (opts, label) in enumerate(configs):
        try:
            pair = Pair(rec, opts)
        except cm.Gone:
            rec_.skip('component no longer exists')
            return
        except CaseTimeout:
            raise
        except Exception:
            # the reference rejects these options: not a valid configuration
            if ci == 0:
                rec_.skip('reference could not be built')
            continue
        if pair.cand_error is not None:
            # make sure the reference really evaluates in this configuration
            try:
                y = pair.ref.run(cm.fill(pair.ref, smp[0]))
                if cm.finite(y):
                    rec_.event('reference comparison')
                    rec_.violation(
                        f'{cls}: cannot be built', f'{label}: {pair.cand_error!r}'[:400],
                        component=cm.name(rec), options=opts or rec['opts'],
                    )
            except CaseTimeout:
                raise
            except Exception:
                pass
            continue
        ref, cand = pair.ref, pair.cand
        if ci == 0:
            rec_.seen('components', f"{rec['mod']}:{cls}")
            # declared units: numbers without units are never converted
            for n in ref.inputs + ref.outputs:
                if ref.units.get(n) not in (None, 'unitless') and n in cand.units and cand.units[n] is None:
                    rec_.violation(f'{cls}.{n}: units', f'declared without units instead of {ref.units[n]}', component=cm.name(rec))
            # declared defaults
            for n in ref.inputs:
                if n in cand.inputs:
                    a = np.array(ref.comp._var_rel2meta[n]['val'], float)
                    b = np.array(cand.comp._var_rel2meta[n]['val'], float)
                    try:
                        b = _convert(b, cand.units[n], ref.units[n])
                    except Exception:
                        rec_.violation(f'{cls}.{n}: units', f'units {cand.units[n]} vs {ref.units[n]}', component=cm.name(rec))
                        continue
                    if a.shape == b.shape and cm.reldiff(b, a) > 1e-9:
                        rec_.violation(
                            f'{cls}.{n}: default', f'default value {b} instead of {a}', component=cm.name(rec)
                        )
                    rec_.event('default value comparison')
        n_hang = 0
        npts = n_in if ci == 0 else max(6, n_in // 3)
        if fresh:
            npts *= 2
        base_list = smp
        for bi, base in enumerate(base_list):
            for kind, x in cm.gen_inputs(rng, ref, cm.fill(ref, base), consts, npts // len(base_list) + 1, fresh):
                if time.time() > t_end:
                    rec_.skip('time slice used up')
                    return
                try:
                    with eval_limit(2):
                        y = ref.run(x)
                except EvalTimeout:
                    rec_.skip('the reference did not terminate here')
                    n_hang += 1
                    if n_hang > 2:
                        break
                    continue
                except CaseTimeout:
                    raise
                except Exception:
                    rec_.skip('outside the reference domain')
                    continue
                ok = {n: v for n, v in y.items() if np.all(np.isfinite(v))}
                if not ok:
                    rec_.skip('outside the reference domain')
                    continue
                try:
                    with eval_limit(10):
                        z = pair.run_cand(x)
                except EvalTimeout:
                    rec_.violation(
                        f'{cls}: does not terminate', f'{kind}/{label}: no result within 10 s', component=cm.name(rec),
                        options=opts or rec['opts'], inputs=x,
                    )
                    break
                except CaseTimeout:
                    raise
                except Exception as e:
                    rec_.violation(
                        f'{cls}: raises', f'{kind}/{label}: {e!r}'[:400], component=cm.name(rec),
                        options=opts or rec['opts'], inputs=x,
                    )
                    continue
                rec_.event('reference comparison', len(ok))
                rec_.case((cm.name(rec), label, kind, round(float(sum(np.sum(v) for v in x.values())), 6)))
                rec_.seen('input kinds', kind)
                bad = compare(pair, x, ok, z, rng, ref.implicit)
                for n, d in bad:
                    i = int(np.argmax(np.abs(np.ravel(z[n]) - np.ravel(y[n])))) if np.size(z[n]) == np.size(y[n]) else 0
                    rec_.violation(
                        f'{cls}.{n}',
                        f'{cm.name(rec)} {label} {kind}: {n}={np.ravel(z[n])[i]!r}, reference {np.ravel(y[n])[i]!r} (rel {d:.2e})',
                        component=cm.name(rec), options=opts or rec['opts'], inputs=x, got=z[n], reference=y[n],
                    )


def run_group(chk, prefixes, n_in, n_opt, per_class=None, tlim=20):
    recs = cm.load_corpus(*prefixes)
    if per_class:
        from collections import defaultdict

        by = defaultdict(list)
        for r in recs:
            by[(r['mod'], r['cls'])].append(r)
        sel = []
        for k, l in by.items():
            rng = chk.rng('select', *k)
            idx = rng.permutation(len(l))[:per_class]
            sel += [l[i] for i in sorted(idx)]
        recs = sel
    chk.extra['corpus_records'] = len(recs)
    items = [(r, n_in, n_opt, chk.seed, tlim) for r in recs]
    chk.pmap(run_record, items, timeout=tlim * 3)
