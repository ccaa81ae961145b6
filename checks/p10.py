"""Interpolators built from generated tables, and the smooth functions against their closed forms."""
import importlib
import itertools
import math
import os

import numpy as np

from vlib import dual
from vlib import prob as vp
from vlib.missions import hash_of

from openmdao.utils.units import convert_units

UN = [('ft', 'm', 0.3048), ('lbm', 'kg', 0.45359237), ('lbf', 'N', 4.4482216152605), ('unitless', 'unitless', 1.0), ('s', 'min', 1 / 60.0), ('NM', 'm', 1852.0),
      ('deg', 'rad', math.pi / 180)]


def table(rng):
    nin, nout = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    ragged = nin > 1 and rng.random() < 0.4
    axes = []
    for _ in range(nin):
        n = int(rng.integers(2, 6))
        axes.append(np.sort(np.round(rng.choice(400, size=n, replace=False) * rng.choice([0.01, 0.5, 10.0]) - rng.choice([0, 1.0]), 4)))
    if ragged:
        # as in engine decks: the last axis has its own points at every combination of the others
        pts = []
        for p in itertools.product(*axes[:-1]):
            n = int(rng.integers(2, 6))
            last = np.sort(rng.choice(np.linspace(0, 40, 81), size=n, replace=False))
            pts += [(*p, x) for x in last]
        pts = np.array(pts)
    else:
        pts = np.array(list(itertools.product(*axes)))
    outs = np.round(rng.uniform(-100, 100, (len(pts), nout)), 5)
    return axes, pts, outs, ragged


def interp_worker(rec, seed):
    rng = np.random.default_rng(seed)
    import openmdao.api as om

    bdi = importlib.import_module('aviary.utils.data_interpolator_builder').build_data_interpolator
    NV = importlib.import_module('aviary.utils.named_values').NamedValues
    axes, pts, outs, ragged = table(rng)
    nin, nout = pts.shape[1], outs.shape[1]
    iu = [UN[int(rng.integers(len(UN)))] for _ in range(nin)]
    ou = [UN[int(rng.integers(len(UN)))] for _ in range(nout)]
    names = [str(x) for x in rng.permutation(['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta'])[:nin + nout]]
    ins, ons = names[:nin], names[nin:]
    cols = [(ins[i], pts[:, i], iu[i][0]) for i in range(nin)] + [(ons[i], outs[:, i], ou[i][0]) for i in range(nout)]
    form = str(rng.choice(['columns', 'columns', 'file', 'file', 'grid']))
    if ragged and form == 'grid':
        form = 'columns'
    structured = [None, False] if ragged else [None, True, False]
    structured = structured[int(rng.integers(len(structured)))]
    if form == 'grid':
        structured = [None, True][int(rng.integers(2))]
    if nin == 1 and structured is False and form != 'file':
        pass
    method = str(rng.choice(['slinear', 'slinear', 'lagrange2', 'akima'])) if not ragged and all(len(a) >= 5 for a in axes) else 'slinear'
    shuffle = rng.random() < 0.5
    reorder = rng.random() < 0.6
    perm = rng.permutation(len(pts)) if shuffle else np.arange(len(pts))
    # the order of the independent columns decides the nesting of a ragged table
    order = rng.permutation(len(cols)) if reorder else np.arange(len(cols))
    if ragged or form == 'grid':
        first = [i for i in sorted(i for i in order if i < nin)]
        it = iter(first)
        order = [next(it) if i < nin else i for i in order]
    label = form == 'file' and rng.random() < 0.7
    nn = int(rng.integers(1, 5))
    case = {'inputs': ins, 'outputs': ons, 'shape': list(pts.shape), 'ragged': ragged, 'form': form, 'structured': structured, 'method': method,
            'rows shuffled': shuffle, 'columns': [cols[i][0] for i in order], 'labelled': label}
    rec.case(f'interp-{seed[-1]}', case)
    rec.seen('table kinds', f'{form} {"ragged" if ragged else "grid"} structured={structured} {method} labelled={label}')
    tag = f'interpolator ({form}, {"ragged" if ragged else "grid"}, structured={structured})'
    data = NV()
    if form == 'grid':
        shp = tuple(len(a) for a in axes)
        for i in order:
            n, v, u = cols[i]
            data.set_val(n, axes[i].copy() if i < nin else v.reshape(shp).copy(), u)
    else:
        for i in order:
            n, v, u = cols[i]
            data.set_val(n, v[perm].copy() if rng.random() < 0.8 or form == 'file' else list(v[perm]), u)
    arg, o = data, ons
    o = list(rng.permutation(ons))
    o = [str(x) for x in o]
    # outputs given as training data through connections
    train = form != 'file' and rng.random() < (0.4 if form == 'grid' else 0.15)
    extra = {}
    if train:
        shuffle, perm = False, np.arange(len(pts))
        if form != 'grid':
            structured = False
        data = NV()
        for i in order:
            if i < nin:
                data.set_val(cols[i][0], axes[i].copy() if form == 'grid' else cols[i][1].copy(), cols[i][2])
        arg, o = data, {ons[i]: ou[i][0] for i in rng.permutation(nout)}
        extra = {'connect_training_data': True}
        case['training data'] = True
        # rows are taken as given: they have to be in the order of the columns
        lex = np.lexsort([cols[i][1] for i in reversed([i for i in order if i < nin])])
        if form != 'grid':
            for i in order:
                if i < nin:
                    data.set_val(cols[i][0], cols[i][1][lex], cols[i][2])
    if form == 'file':
        with open(f'table{os.getpid()}.csv', 'w') as f:
            f.write('# a table\n')
            f.write(', '.join(n + ' (' + ', '.join([x for x in (u if u != 'unitless' else '', ('output' if n in ons else 'input') if label else '') if x]) + ')'
                              if (u != 'unitless' or label) else n for n, _, u in (cols[i] for i in order)) + '\n')
            for r in perm:
                f.write(', '.join(repr(float(cols[i][1][r])) for i in order) + '\n')
        arg = os.path.abspath(f'table{os.getpid()}.csv')
        if label and rng.random() < 0.4:
            o = None
    try:
        with vp.quiet():
            comp = bdi(arg, interpolator_outputs=o, num_nodes=nn, method=method, extrapolate=True, structured=structured, **extra)
            p = om.Problem()
            p.model.add_subsystem('c', comp, promotes=['*'])
            p.setup(force_alloc_complex=False)
            p.final_setup()
            if train:
                for i, n in enumerate(ons):
                    v = outs[:, i]
                    if form == 'grid':
                        # (axes in the order of the columns)
                        v = np.transpose(v.reshape([len(a) for a in axes]), [i for i in order if i < nin])
                    else:
                        v = v[lex]
                    p.set_val(n + '_train', v.reshape(np.shape(p.get_val(n + '_train'))), units=ou[i][0])
    except Exception as e:
        rec.violation(f'{tag}: cannot be built', f'{e!r:.300}', case=case)
        return
    scale = 1e-9 * (1 + np.abs(outs).max())

    def evaluate(x):
        with vp.quiet():
            for i, n in enumerate(ins):
                a, b, f = iu[i]
                if rng.random() < 0.5:
                    p.set_val(n, x[:, i], units=a)
                else:
                    p.set_val(n, convert_units(x[:, i], a, b), units=b)
            p.run_model()
            res = []
            for i, n in enumerate(ons):
                a, b, f = ou[i]
                v = np.ravel(p.get_val(n, units=a))
                w = convert_units(np.ravel(p.get_val(n, units=b)), b, a)
                if not np.all(np.abs(v - w) <= scale * 10):
                    rec.violation('interpolator: units of an output', f'{n}: {v} {a} or {w} through {b}', case=case)
                res.append(v)
        return np.array(res).T

    # every table point
    idx = rng.permutation(len(pts))[:24]
    for j in range(0, len(idx), nn):
        k = idx[j:j + nn]
        if len(k) < nn:
            k = np.resize(k, nn)
        got = evaluate(pts[k])
        rec.event('table point', len(k) * nout)
        d = np.abs(got - outs[k])
        if not np.all(d <= 1e-7 * (1 + np.abs(outs).max())):
            r, c = np.unravel_index(np.argmax(np.nan_to_num(d, nan=1e99)), d.shape)
            rec.violation(f'{tag}: a table point is not returned', f'{ons[c]} at {dict(zip(ins, pts[k][r]))} is {got[r, c]!r}, the table says {outs[k][r, c]!r}', case=case)
            return
    if method != 'slinear':
        return
    # between neighbours
    for _ in range(3):
        if ragged:
            base = pts[int(rng.integers(len(pts)))][:-1]
            sel = np.where(np.all(pts[:, :-1] == base, axis=1))[0]
            j = int(rng.integers(len(sel) - 1))
            a, b = sel[j], sel[j + 1]
            t = rng.uniform()
            x = np.array([*base, pts[a, -1] + t * (pts[b, -1] - pts[a, -1])])
            want = outs[a] + t * (outs[b] - outs[a])
        else:
            cell, t = [], []
            for a in axes:
                j = int(rng.integers(len(a) - 1))
                cell.append(j)
                t.append(rng.uniform())
            x = np.array([a[j] + s * (a[j + 1] - a[j]) for a, j, s in zip(axes, cell, t)])
            want = np.zeros(nout)
            shp = tuple(len(a) for a in axes)
            for c in itertools.product((0, 1), repeat=nin):
                w = np.prod([s if q else 1 - s for s, q in zip(t, c)])
                want = want + w * outs[np.ravel_multi_index([j + q for j, q in zip(cell, c)], shp)]
        got = evaluate(np.tile(x, (nn, 1)))
        rec.event('between neighbours', nout)
        if not np.all(np.abs(got - want) <= 1e-7 * (1 + np.abs(outs).max())):
            rec.violation(f'{tag}: linear lookup between neighbours', f'at {dict(zip(ins, x))}: {got[0]!r}, expected {want!r}', case=case)
            return


# ----------------------------------------------------------------------------- smooth functions
def logistic(z):
    return 1 / (1 + math.exp(-z)) if z >= 0 else math.exp(z) / (1 + math.exp(z))


def lse(a, b):
    m = max(a, b)
    return m + math.log1p(math.exp(-abs(a - b)))


def sint(v):
    return v - math.sin(2 * math.pi * (v + 0.5)) / (2 * math.pi)


def near(a, b, tol=1e-9):
    return bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-12 + tol * np.maximum(1e-3, np.abs(b))))


def smooth_worker(rec, seed):
    rng = np.random.default_rng(seed)
    m = importlib.import_module('aviary.utils.math')
    n = int(rng.integers(1, 6))
    mu = float(10 ** rng.uniform(-2, 2.5))
    x0 = float(rng.choice([0.0, 1.0, np.round(rng.uniform(-50, 50), 3), np.round(rng.uniform(1e3, 1e5), 1)]))
    width = float(rng.choice([0.1, 1.0, 5.0, 50.0]))
    x = np.round(x0 + rng.normal(size=n) * width / mu, 9)
    if rng.random() < 0.3:
        x[0] = x0
    xs = float(x[int(rng.integers(n))])
    rec.case(f'smooth-{seed[-1]}', {'x': x, 'x0': x0, 'mu': mu})

    def judge(name, f, args, want, tol=1e-9, bounds=None):
        rec.event('smooth function', np.size(want))
        rec.seen('functions', name)
        try:
            with np.errstate(all='ignore'):
                got = f(*args)
        except Exception as e:
            rec.violation(f'{name}: fails', f'{name}{args!r}: {e!r}', function=name, args=repr(args))
            return
        if not near(got, want, tol):
            rec.violation(f'{name}: value', f'{name}{args!r} = {got!r}, closed form {want!r}', function=name, args=repr(args))

    # max and min
    for f, sgn in ((m.smooth_max, 1), (m.smooth_min, -1)):
        w = [sgn * lse(mu * sgn * a, mu * sgn * x0) / mu for a in x]
        judge(f.__name__, f, (x, x0, mu), np.array(w))
        judge(f.__name__ + ' (scalar)', f, (xs, x0, mu), sgn * lse(mu * sgn * xs, mu * sgn * x0) / mu)
        g = getattr(m, 'd_' + f.__name__)
        judge(g.__name__, g, (x, x0, mu), np.array([logistic(sgn * mu * (a - x0)) for a in x]), 1e-7)
        judge(g.__name__ + ' (scalar)', g, (xs, x0, mu), logistic(sgn * mu * (xs - x0)), 1e-7)
        b = np.round(x0 + rng.normal(size=n) * width / mu, 9)
        judge(f.__name__ + ' (two arrays)', f, (x, b, mu), np.array([sgn * lse(mu * sgn * a, mu * sgn * c) / mu for a, c in zip(x, b)]))
        # never on the wrong side, never further than log(2)/mu
        rec.event('bound', n)
        got = f(x, b, mu)
        hard = np.maximum(x, b) if sgn > 0 else np.minimum(x, b)
        d = sgn * (got - hard)
        eps = 1e-9 * (1 + np.abs(hard))
        if not (np.all(d >= -eps) and np.all(d <= math.log(2) / mu + eps)):
            rec.violation(f'{f.__name__}: bound', f'{f.__name__}({x}, {b}, {mu}) = {got}', function=f.__name__)
    # sigmoid
    s = float(rng.choice([1.0, 0.1, 10.0, 100.0, np.round(10 ** rng.uniform(-2, 3), 4)]))
    y = np.round(x0 + rng.normal(size=n) * float(rng.choice([0.3, 3.0, 30.0, 600.0])) * s, 9)
    ys = float(y[0])
    w = [logistic((a - x0) / s) if (a - x0) / s > -320 else 0.0 for a in y]
    dw = [q * (1 - q) / s for q in w]
    judge('sigmoidX', m.sigmoidX, (y, x0, s), np.array(w), 1e-8)
    judge('dSigmoidXdx', m.dSigmoidXdx, (y, x0, s), np.array(dw), 1e-6)
    judge('sigmoidX (scalar)', m.sigmoidX, (ys, x0, s), w[0], 1e-8)
    judge('dSigmoidXdx (scalar)', m.dSigmoidXdx, (ys, x0, s), dw[0], 1e-6)
    c0 = np.round(x0 + rng.normal(size=n), 6)
    w = [logistic((a - c) / s) if (a - c) / s > -320 else 0.0 for a, c in zip(y, c0)]
    judge('sigmoidX (array centre)', m.sigmoidX, (y, c0, s), np.array(w), 1e-8)
    judge('dSigmoidXdx (array centre)', m.dSigmoidXdx, (y, c0, s), np.array([q * (1 - q) / s for q in w]), 1e-6)
    rec.event('bound', n)
    got = m.sigmoidX(y, x0, s)
    if not (np.all(got >= 0) and np.all(got <= 1)):
        rec.violation('sigmoidX: bound', f'{got}', function='sigmoidX')
    # complex step of the function itself
    h = 1e-30
    for f, g, z, a in ((m.sigmoidX, m.dSigmoidXdx, y, (x0, s)), (m.smooth_max, m.d_smooth_max, x, (x0, mu)), (m.smooth_min, m.d_smooth_min, x, (x0, mu))):
        rec.event('complex step', n)
        with np.errstate(all='ignore'):
            d = np.imag(f(z + 1j * h, *a)) / h
            e = g(z, *a)
        if not near(d, e, 1e-7):
            rec.violation(f'{f.__name__}: derivative', f'{g.__name__}({z}, {a}) = {e}, complex step {d}', function=f.__name__)
    # smooth integers
    v = float(np.round(rng.uniform(-3, 60), 6))
    k = float(np.round(rng.uniform(2, 60), 3))
    fr = v - math.floor(v)
    judge('smooth_int_tanh', m.smooth_int_tanh, (np.array([v]), k), np.array([math.floor(v) + 0.5 * (math.tanh(k * (fr - 0.5)) + 1)]))
    judge('d_smooth_int_tanh', m.d_smooth_int_tanh, (np.array([v]), k), np.array([0.5 * k * (1 - math.tanh(k * (fr - 0.5)) ** 2)]), 1e-6)
    a = sint(v)
    b = sint(a)
    c = sint(b)
    d = sint(c)
    judge('sin_int4', m.sin_int4, (v,), d - 0.5, 1e-7)
    pr = 1.0
    for q in (v, a, b, c):
        pr *= 1 - math.cos(2 * math.pi * (q + 0.5))
    judge('dydx_sin_int4', m.dydx_sin_int4, (v,), pr, 1e-6)


def run(chk):
    import aviary.api  # noqa

    chk.rule = ('one case is one generated table (grid or ragged, any column and row order, units, labelled file or data, every build option) whose interpolator is evaluated '
                'at table points and between neighbours, or one set of arguments of every smooth function')
    n, k = chk.pick((900, 3000), (20000, 100000))

    def many(rec, part):
        for kind, i in part:
            (interp_worker if kind == 'i' else smooth_worker)(rec, [chk.seed, hash_of('P10' + kind), i])

    it = [('i', i) for i in range(n)]
    chk.pmap(many, [it[i:i + 25] for i in range(0, n, 25)], timeout=chk.pick(150, 400))
    it = [('s', i) for i in range(k)]
    chk.pmap(many, [it[i:i + 200] for i in range(0, k, 200)], timeout=chk.pick(100, 400))
    chk.require('table point', 10000)
    chk.require('between neighbours', 1500)
    chk.require('smooth function', 40000)
