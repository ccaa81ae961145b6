"""Monitor: the derivatives a component hands to the solver/optimizer are those of its own outputs.

Observed: the action of the supplied Jacobian on a direction (run_apply_linear, fwd) against central
differences of the component's own outputs (residuals for implicit components) along that direction.
A disagreement counts only where the difference quotients themselves have settled: two step sizes agree
and the one-sided quotients agree (no kink between x-h and x+h).
"""

import time

import numpy as np

from vlib import compmon as cm
from vlib.core import CaseTimeout


def jvp(live, x, wrt, v):
    """Supplied derivative action; the component is linearized at x."""
    c = live.comp
    c._dinputs.set_val(0.0)
    c._doutputs.set_val(0.0)
    c._dresiduals.set_val(0.0)
    c._dinputs.set_var(wrt, v)
    c.run_apply_linear('fwd')
    return {o: np.array(c._dresiduals[o]) for o in live.outputs}


def fd(live, x, wrt, v, h):
    a, b = dict(x), dict(x)
    a[wrt] = x[wrt] + h * v
    b[wrt] = x[wrt] - h * v
    fa = live.run(a)
    fb = live.run(b)
    return fa, fb


def scale_of(live, x, f0, wrt, v, D):
    return D


def pinned_same(rec, opts, x, o, w, v, J, f):
    """Does the pinned release supply the same derivative (and value) here?  Classifies, never excuses."""
    try:
        ref = cm.Live(rec, 'aviary_ref', opts, complex_=True)
        f0 = ref.run(x)
        ref.comp.run_linearize()
        Jr = jvp(ref, x, w, v)[o].reshape(J.shape)
        return bool(cm.reldiff(f0[o], f) < 1e-6 and np.max(np.abs(Jr - J)) <= 1e-5 * (np.max(np.abs(Jr)) + 1e-30))
    except CaseTimeout:
        raise
    except Exception:
        return False


def fresh_right(rec, opts, x, o, w, v, Q, tol):
    """Is the derivative right when the component is linearized here first?  Classifies only."""
    try:
        new = cm.Live(rec, 'aviary', opts, complex_=True)
        new.run(x)
        new.comp.run_linearize()
        J = jvp(new, x, w, v)[o].reshape(Q.shape)
        return bool(np.all(np.abs(J - Q) <= tol))
    except CaseTimeout:
        raise
    except Exception:
        return False


def check_point(rec_, live, x, rng, label, rec, max_wrt=None, opts=None, t_end=None):
    c = live.comp
    f0 = live.run(x)
    if not cm.finite(f0):
        rec_.skip('outputs not finite here')
        return
    try:
        c.run_linearize()
    except CaseTimeout:
        raise
    except Exception as e:
        # the release under study raises here too: outside the domain of this component
        try:
            ref = cm.Live(rec, 'aviary_ref', opts, complex_=True)
            ref.run(x)
            ref.comp.run_linearize()
        except CaseTimeout:
            raise
        except Exception:
            rec_.skip('outside the domain')
            return
        rec_.violation(f'{rec["cls"]}: linearize raises', f'{label}: {e!r}'[:300], component=cm.name(rec), inputs=x)
        return
    wrts = list(live.inputs)
    if max_wrt and len(wrts) > max_wrt:
        wrts = [wrts[i] for i in rng.permutation(len(wrts))[:max_wrt]]
    sup = {}
    dirs = {}
    for w in wrts:
        xv = x[w]
        v = np.where(np.abs(xv) > 1e-8, np.abs(xv), 1.0) * rng.uniform(0.5, 1.0, size=xv.shape)
        if xv.size > 1 and rng.random() < 0.5:
            v = v * rng.choice([-1.0, 1.0], size=xv.shape)
        dirs[w] = v
        try:
            sup[w] = jvp(live, x, w, v)
        except CaseTimeout:
            raise
    for w in wrts:
        if t_end and time.time() > t_end:
            rec_.skip('time slice used up')
            return
        v = dirs[w]
        fa, fb = fd(live, x, w, v, 1e-5)
        if not (cm.finite(fa) and cm.finite(fb)):
            rec_.skip('outputs not finite nearby')
            continue
        for o in live.outputs:
            D = (fa[o] - fb[o]) / 2e-5
            J = sup[w][o]
            if J.shape != D.shape:
                J = J.reshape(D.shape)
            rec_.event('derivative comparison')
            # magnitude: derivative itself, plus the round-off floor of the difference quotient
            mag0 = np.max(np.abs(f0[o])) if f0[o].size else 0.0
            if live.implicit:  # residuals are near zero by design: round-off scales with the states
                mag0 = max(mag0, float(np.max(np.abs(c._outputs[o]))))
            floor = 1e-10 * mag0 / 1e-5
            sc = np.max(np.abs(D)) if D.size else 0.0
            err = np.abs(J - D)
            tol = 2e-4 * np.maximum(np.abs(D), sc * 1e-3) + floor + 1e-12
            if np.any(np.abs(D) > floor):
                rec_.event('nonzero derivative comparison')
            if np.all(err <= tol):
                continue
            # settle the difference quotients before judging
            hs = [1e-4, 1e-6, 1e-7]
            Q = [D]
            one = []
            for h in hs:
                a, b = fd(live, x, w, v, h)
                Q.append((a[o] - b[o]) / (2 * h))
                one.append(((a[o] - f0[o]) / h, (f0[o] - b[o]) / h))
            # elementwise: the quotients at 1e-5, 1e-6 agree, and left/right agree at 1e-6
            fl6 = 1e-10 * mag0 / 1e-6
            mag = np.maximum(np.abs(Q[2]), sc * 1e-3)
            settled = np.abs(Q[2] - D) <= 1e-3 * mag + fl6
            L, R = one[1]
            settled &= np.abs(L - R) <= 2e-2 * mag + 2 * fl6
            settled &= np.abs(Q[1] - D) <= 5e-2 * mag + fl6
            L, R = one[0]
            settled &= np.abs(L - R) <= 0.3 * mag + fl6
            wrong = settled & (np.abs(J - Q[2]) > 5e-3 * mag + 5 * fl6) & (err > tol)
            if np.any(wrong):
                i = int(np.argmax(np.where(wrong, err, -1)))
                same = pinned_same(rec, opts, x, o, w, v, J, f0[o])
                stale = fresh_right(rec, opts, x, o, w, v, Q[2], 5e-3 * mag + 5 * fl6)
                rec_.violation(
                    f'{rec["cls"]}: d {o} / d {w}'
                    + (' (depends on where it was linearized first)' if stale else ' (as in the pinned release)' if same else ''),
                    f'{cm.name(rec)} {label}: along the direction, supplied {np.ravel(J)[i]!r}, difference quotient '
                    f'{np.ravel(Q[2])[i]!r} (element {i})',
                    component=cm.name(rec), options=rec['opts'], inputs=x, direction=v, wrt=w, of=o,
                )
            else:
                rec_.skip('difference quotient not settled')
        # restore for the next wrt (jvp were taken before, nothing else needed)


def run_record(rec_, item):
    rec, npts, seed, tlim, max_wrt, nopt = item
    t_end = time.time() + tlim
    rng = np.random.default_rng([seed, rec['id'], 5])
    configs = [(None, 'recorded options')]
    for _ in range(nopt * 3):
        o, label = cm.mutate_options(rng, rec)
        if o is not None and len(configs) <= nopt:
            configs.append((o, label))
    configs[1:1] = list(cm.engine_variants(rng, rec, 3))
    for ci, (opts, label) in enumerate(configs):
        try:
            if ci:
                r = cm.Live(rec, 'aviary_ref', opts)
                if not cm.finite(r.run(cm.fill(r, next(cm.samples(rec))))):
                    continue
            live = cm.Live(rec, 'aviary', opts, complex_=True)
            # literals of the reference: the points visited do not depend on how /repo is written
            consts = [c for c in cm.constants(cm.find_class(rec, 'aviary_ref'), 'aviary_ref') if 1e-3 < abs(c) < 1e6]
        except cm.Gone:
            rec_.skip('component no longer exists')
            return
        except CaseTimeout:
            raise
        except Exception:
            if ci == 0:
                raise
            continue
        rec_.seen('components', f"{rec['mod']}:{rec['cls']}")
        base = list(cm.samples(rec))
        n = npts if ci == 0 else max(2, npts // 3)
        base = [base[i] for i in rng.permutation(len(base))[:n]]
        for b in base:
            for kind, x in cm.gen_inputs(rng, live, cm.fill(live, b), consts, max(1, n // len(base)), extreme=False):
                if time.time() > t_end:
                    rec_.skip('time slice used up')
                    return
                # keep away from exact recorded kinks
                x = {k: v * (1 + 1e-3 * rng.uniform(-1, 1, size=v.shape)) for k, v in x.items()}
                # angles stay physical
                for k in x:
                    lim = {'rad': 1.4, 'deg': 80.0}.get(live.units.get(k))
                    if lim:
                        x[k] = np.clip(x[k], -lim, lim)
                try:
                    f = live.run(x)
                except CaseTimeout:
                    raise
                except Exception:
                    rec_.skip('outside the domain')
                    continue
                if not cm.finite(f):
                    rec_.skip('outputs not finite here')
                    continue
                rec_.case((cm.name(rec), label, kind, round(float(sum(np.sum(v) for v in x.values())), 6)))
                check_point(rec_, live, x, rng, f'{label}/{kind}', rec, max_wrt, opts, t_end)
