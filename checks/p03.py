"""Evaluating a component is a function of its inputs and options.

Monitor on single components: the same inputs give bitwise the same outputs (and derivatives) whatever was evaluated
before, on whichever instance, and evaluation leaves inputs and options as they were.
"""
import copy

import numpy as np

from vlib import compmon as cm, derivs
from vlib.core import CaseTimeout, EvalTimeout, eval_limit


def snap_opts(comp):
    out = {}
    for k in comp.options._dict:
        try:
            v = comp.options._dict[k]['val'] if isinstance(comp.options._dict[k], dict) else comp.options[k]
        except Exception:
            continue
        try:
            out[k] = copy.deepcopy(v)
        except Exception:
            pass
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'get_items') and hasattr(b, 'get_items'):
        return same([(k, v) for k, v in a], [(k, v) for k, v in b])
    try:
        return bool(a == b)
    except Exception:
        return True


def run_record(rec_, item):
    rec, npts, seed, tlim = item
    import time

    t_end = time.time() + tlim
    rng = np.random.default_rng([seed, rec['id'], 23])
    try:
        A = cm.Live(rec, 'aviary', complex_=True)
        B = cm.Live(rec, 'aviary', complex_=True)
        consts = cm.constants(cm.find_class(rec, 'aviary_ref'), 'aviary_ref')
    except cm.Gone:
        rec_.skip('component no longer exists')
        return
    except CaseTimeout:
        raise
    except Exception:
        rec_.skip('cannot be built')
        return
    cls = rec['cls']
    rec_.seen('components', f"{rec['mod']}:{cls}")
    pts = []
    bases = list(cm.samples(rec))
    for b in bases:
        pts += [(k, x) for k, x in cm.gen_inputs(rng, A, cm.fill(A, b), consts, npts // len(bases) + 1, extreme=True)]
    opts0 = snap_opts(A.comp)
    first = {}
    state = {o: rng.uniform(0.5, 2.0, size=np.shape(A.init_out[o])) for o in A.outputs} if A.implicit else {}

    def ev(live, x, lin=False):
        if live.implicit:
            live.set_outputs(state)
        y = live.run(x)
        if lin:
            live.comp.run_linearize()
        return y

    def bad(how, i, n, a, b):
        rec_.violation(
            f'{cls}.{n}: {how}', f'{cm.name(rec)} point {i} ({pts[i][0]}): {np.ravel(b)[:4]} vs {np.ravel(a)[:4]}',
            component=cm.name(rec), options=rec['opts'], inputs=pts[i][1], first=a, again=b,
        )

    def compare(how, i, y, z):
        for n in y:
            rec_.event('repeat evaluation')
            # a solver inside a component may stop anywhere within its tolerance
            if not np.array_equal(y[n], z[n], equal_nan=True) and not cm.reldiff(z[n], y[n]) <= 1e-13:
                bad(how, i, n, y[n], z[n])

    order = []
    try:
        with eval_limit(tlim):
            for i, (kind, x) in enumerate(pts):
                try:
                    with eval_limit(3):
                        xin = {k: v.copy() for k, v in x.items()}
                        y = ev(A, xin)
                except EvalTimeout:
                    rec_.skip('does not terminate here')
                    break
                except CaseTimeout:
                    raise
                except Exception:
                    rec_.skip('outside the domain')
                    continue
                if not cm.finite(y):
                    rec_.skip('outputs not finite')
                    continue
                got = A.get_inputs()
                for n in A.inputs:
                    rec_.event('inputs unchanged')
                    want = np.broadcast_to(np.reshape(x[n], np.shape(got[n])) if np.size(x[n]) == np.size(got[n]) else x[n], np.shape(got[n])) if n in x else None
                    if want is not None and not np.array_equal(want, got[n]):
                        bad('evaluation changed its input', i, n, want, got[n])
                first[i] = y
                order.append(i)
                rec_.case((cm.name(rec), kind, i, seed))
                if time.time() > t_end:
                    break
            if not order:
                return
            # same instance, other history (and in between, derivatives)
            for i in rng.permutation(order):
                i = int(i)
                z = ev(A, pts[i][1], lin=bool(rng.random() < 0.3))
                compare('depends on earlier evaluations', i, first[i], z)
                if time.time() > t_end:
                    break
            # interleaved with another instance
            for i in rng.permutation(order)[: max(4, len(order) // 2)]:
                i = int(i)
                j = int(rng.choice(order))
                z = ev(B, pts[i][1])
                ev(A, pts[j][1])
                compare('differs between instances', i, first[i], z)
                if time.time() > t_end:
                    break
            # nothing shared with a third, fresh instance built afterwards
            C = cm.Live(rec, 'aviary', complex_=True)
            i = int(rng.choice(order))
            compare('differs on a fresh instance', i, first[i], ev(C, pts[i][1]))
            # derivatives: after this history against a fresh instance
            for i in rng.permutation(order)[: 2]:
                i = int(i)
                D = cm.Live(rec, 'aviary', complex_=True)
                x = {k: v.copy() for k, v in pts[i][1].items()}
                ya = ev(A, x, lin=True)
                yd = ev(D, x, lin=True)
                compare('changed by linearization', i, first[i], ya)
                oa = {o: np.array(A.comp._outputs[o]) for o in A.outputs}
                for w in rng.permutation(A.inputs)[:4]:
                    v = np.where(np.abs(x[w]) > 1e-8, np.abs(x[w]), 1.0) if w in x else None
                    if v is None:
                        continue
                    ja, jd = derivs.jvp(A, x, w, v), derivs.jvp(D, x, w, v)
                    for o in A.outputs:
                        rec_.event('repeat derivative')
                        if not np.all(np.isfinite(jd[o])):
                            continue
                        sc = max(np.max(np.abs(jd[o])), 1e-9 * float(np.max(np.abs(oa[o]))) if oa[o].size else 0.0)
                        if np.max(np.abs(ja[o] - jd[o])) > 1e-6 * sc + 1e-14:
                            rec_.violation(
                                f'{cls}: d {o} / d {w} depends on history', f'{cm.name(rec)}: {np.ravel(ja[o])[:4]} vs {np.ravel(jd[o])[:4]}',
                                component=cm.name(rec), options=rec['opts'], inputs=x,
                            )
    except EvalTimeout:
        rec_.skip('time slice used up')
    o1 = snap_opts(A.comp)
    for k in opts0:
        rec_.event('options unchanged')
        if k in o1 and not same(opts0[k], o1[k]):
            rec_.violation(f'{cls}: option {k} changed', f'{opts0[k]!r} became {o1[k]!r}'[:300], component=cm.name(rec))


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    from collections import defaultdict

    by = defaultdict(list)
    for r in cm.load_corpus():
        if r['cls'] not in ('CalculateIdle',):
            by[(r['mod'], r['cls'])].append(r)
    sel = []
    for k, l in by.items():
        idx = chk.rng('select', *k).permutation(len(l))[: chk.pick(2, None)]
        sel += [l[i] for i in idx]
    chk.rule = 'a case is one component instance at one generated input point, evaluated in several histories and on several instances'
    chk.pmap(run_record, [(r, chk.pick(14, 120), chk.seed, chk.pick(12, 120)) for r in sel], timeout=chk.pick(60, 400))
    for m, n in [('repeat evaluation', 5000), ('inputs unchanged', 5000), ('options unchanged', 300), ('repeat derivative', 1000)]:
        chk.require(m, n)
