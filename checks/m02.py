"""A value given for a computed quantity overrides it everywhere."""
import numpy as np

from vlib import aircraft as ac
from vlib import diff, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import eval_limit

PRE = ('aircraft', 'mission')


def override_monitor(rec, p, given, spec, base):
    """The given value is what is reported, what every part reads, and the computed one is kept aside."""
    model = p.model
    meta = model._var_allprocs_abs2meta
    kept = {}
    for a in meta['output']:
        q = model._resolver.abs2prom(a, 'output')
        if 'AIRCRAFT_DATA_OVERRIDE:' in q:
            kept.setdefault(q.split('AIRCRAFT_DATA_OVERRIDE:')[1], []).append(a)
    readers = {}
    for a in meta['input']:
        q = model._resolver.abs2prom(a, 'input')
        if q in given:
            readers.setdefault(q, []).append(a)
        elif a.rsplit('.', 1)[-1] in given:
            readers.setdefault(a.rsplit('.', 1)[-1], []).append(a)
    for n, (v, u) in given.items():
        try:
            got = np.ravel(p.get_val(n, units=u))
        except KeyError:
            # nothing but its own computation knows the variable
            rec.skip('nothing reads the given variable')
            continue
        except Exception:
            rec.skip('given value cannot be read')
            continue
        want = np.ravel(np.asarray(v, float))
        rec.event('given value reported')
        if got.size != want.size and want.size != 1 or not ms.near(got, want, 1e-9, 1e-12):
            rec.violation(f'given value is not the one reported: {n}', f'{n} was given as {v!r} {u}, the problem reports {got} {u}', spec=spec)
            continue
        for a in readers.get(n, ()):
            try:
                x = np.ravel(p.get_val(a, units=u))
            except Exception:
                continue
            rec.event('given value read by a component')
            if x.size == want.size and not ms.near(x, want, 1e-9, 1e-12):
                rec.violation(f'a part of the model does not use the given {n}', f'{a} reads {x} {u}, {n} was given as {v!r} {u}', spec=spec)
        if n in base:
            rec.event('computed value kept aside')
            if n not in kept:
                rec.violation(f'given value: {n} is not kept from being computed over', f'no override of the computed {n} found', spec=spec)
    for n in kept:
        if n not in given and n not in spec['values'] and n not in gen.deck_values(spec['deck']):
            # a value preprocessing supplies for the user
            if n not in p.model.aviary_inputs:
                rec.violation(f'computed value replaced though nothing was given: {n}', f'{kept[n]} is overridden', spec=spec)


def worker(rec, item):
    kind, seed = item
    rng = np.random.default_rng(seed)
    if kind == 'aircraft':
        k = int(rng.choice([1, 2, 3, 5, 8], p=[0.4, 0.25, 0.15, 0.1, 0.1]))
        spec, labels, given = ac.spec_for(rng, perturb=int(rng.integers(0, 4)), options=int(rng.choice([0, 0, 1])), overrides=k)
        rec.case(ms.diff_key('aircraft', spec, labels), {'deck': spec['deck'], 'labels': labels})
        for n in given:
            rec.seen('overridden variables', n)
        # the reference is given the same values in the hierarchy's own order
        r = diff.run_pair(rec, {**spec, 'values': dict(sorted(spec['values'].items()))}, 'premission', rng, what='aircraft with given values', limit=40,
                          cand_spec=spec, replay=spec)
        if r is None:
            return
        with vp.quiet():
            override_monitor(rec, r[1].b.prob, given, spec, ac.outputs_of(spec['deck']))
        return
    spec, labels = ms.make_spec(rng, kind, 0, perturb=1)
    out = ac.outputs_of(spec['deck'])
    cand = [k for k in out if np.asarray(out[k][0]).dtype.kind == 'f' and np.all(out[k][0] != 0)]
    given = {}
    for k in rng.choice(cand, size=min(len(cand), int(rng.choice([1, 2, 3]))), replace=False):
        v, u = out[str(k)]
        v = np.ravel(v) * np.round(rng.uniform(0.95, 1.06), 4)
        val, un = gen.reunit(rng, float(v[0]) if v.size == 1 else v.tolist(), u)
        given[str(k)] = (np.array(val) if v.size > 1 else val, un)
    spec['values'].update(given)
    r = ms.pair(rec, kind, spec, labels + sorted(given), 'run', rng, f'mission {kind} with given values', limit=90)
    if r is None:
        return
    for n in given:
        rec.seen('overridden variables', n)
    with vp.quiet(), eval_limit(60):
        override_monitor(rec, r[1].b.prob, given, spec, out)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one aircraft or mission with 1 to 8 computed variables given (value, units, order at random); each given value is read back where '
                'it is reported and in every component that reads it, everything else is compared with the reference')
    n = chk.pick({'aircraft': 230, 'ES': 20, '2DOF': 4}, {'aircraft': 6000, 'ES': 300, '2DOF': 80})
    it = [(k, [chk.seed, ms.hash_of('M02'), ms.hash_of(k), i]) for k in ('2DOF', 'ES', 'aircraft') for i in range(n[k])]
    chk.pmap(worker, it, timeout=chk.pick(150, 250))
    chk.require('given value reported', 200)
    chk.require('given value read by a component', 300)
    chk.require('value comparison', 30000)
