"""The nodes of a vectorized component do not influence each other.

Monitor: outputs of an instance with n nodes against (a) the same instance with the nodes permuted, (b) the
same instance with every other node replaced by unrelated values, (c) an instance built for one node.  Which outputs are
per-node quantities is decided by the release under study: those for which its own component passes (a)-(c).
"""
import numpy as np

from vlib import compmon as cm
from vlib.core import CaseTimeout, EvalTimeout, eval_limit

# components that relate nodes on purpose (differences along a phase, cumulative quantities, boundary conditions)


def per_node(live, n):
    """Names whose first axis is the node axis."""
    def isn(name):
        sh = np.shape(live.comp._inputs[name] if name in live.inputs else live.comp._outputs[name])
        return len(sh) >= 1 and sh[0] == n
    return [i for i in live.inputs if isn(i)], [o for o in live.outputs if isn(o)]


def probe(live, one, x, y, y2, perm, ins, outs, n, other):
    """Largest deviation per output, for each of the three observations."""
    res = {}
    xp = {k: (v[perm] if k in ins else v) for k, v in x.items()}
    if live.implicit:
        live.set_outputs({o: v[perm] for o, v in y2.items() if o in outs})
    zp = live.run(xp)
    for o in outs:
        res[o, 'permuted'] = (cm.reldiff(zp[o], y[o][perm]), zp[o])
    i = other[0]
    xo = {k: v.copy() for k, v in x.items()}
    for k in ins:
        keep = xo[k][i].copy()
        xo[k] = xo[k][other[1]]
        xo[k][i] = keep
    if live.implicit:
        live.set_outputs({o: v for o, v in y2.items() if o in outs})
    zo = live.run(xo)
    for o in outs:
        res[o, 'other nodes replaced'] = (cm.reldiff(zo[o][i], y[o][i]), zo[o][i])
    if one is not None:
        x1 = {k: (v[i : i + 1] if k in ins else v) for k, v in x.items()}
        if live.implicit:
            one.set_outputs({o: v[i : i + 1] for o, v in y2.items() if o in outs})
        z1 = one.run(x1)
        for o in outs:
            if o in z1 and np.size(z1[o]) == np.size(y[o][i]):
                res[o, 'alone'] = (cm.reldiff(np.ravel(z1[o]), np.ravel(y[o][i])), z1[o])
    return res


def run_record(rec_, item):
    rec, npts, seed, tlim = item
    import time

    t_end = time.time() + tlim
    rng = np.random.default_rng([seed, rec['id'], 11])
    key = 'num_nodes' if 'num_nodes' in rec['opts'] else 'nn' if 'nn' in rec['opts'] else None
    sizes = [int(rng.integers(3, 9))]
    for n in sizes:
        o = dict(rec['opts'])
        o[key] = n
        o1 = dict(rec['opts'])
        o1[key] = 1
        try:
            cand = cm.Live(rec, 'aviary', o)
            ref = cm.Live(rec, 'aviary_ref', o)
        except cm.Gone:
            rec_.skip('component no longer exists')
            return
        except CaseTimeout:
            raise
        except Exception:
            rec_.skip('cannot be built with this number of nodes')
            continue
        try:
            c1, r1 = cm.Live(rec, 'aviary', o1), cm.Live(rec, 'aviary_ref', o1)
        except CaseTimeout:
            raise
        except Exception:
            c1 = r1 = None
        ins, outs = per_node(ref, n)
        ins = [i for i in ins if i in cand.inputs]
        outs = [q for q in outs if q in cand.outputs]
        if not ins or not outs:
            rec_.skip('no per-node inputs or outputs')
            continue
        rec_.seen('components', rec['cls'])
        bases = list(cm.samples(rec))
        consts = cm.constants(type(ref.comp), 'aviary_ref')
        for base in bases:
            b = cm.fill(ref, base)
            # spread over the recorded nodes, all different
            for k in ins:
                if k in base and np.ndim(base[k]) and len(base[k]) > 1 and np.shape(base[k])[1:] == np.shape(b[k])[1:]:
                    b[k] = np.array(base[k])[rng.integers(len(base[k]), size=n)]
            for kind, x in cm.gen_inputs(rng, ref, b, consts, npts // len(bases) + 1, extreme=False):
                if time.time() > t_end:
                    rec_.skip('time slice used up')
                    return
                for k in ins:
                    x[k] = x[k] * rng.uniform(0.9, 1.1, size=x[k].shape)
                perm = rng.permutation(n)
                # every output of an explicit component is also an output at node i with other rows reshuffled
                other = (int(rng.integers(n)), rng.integers(n, size=n))
                try:
                    with eval_limit(10):
                        state = {q: rng.uniform(0.5, 2.0, size=np.shape(ref.init_out[q])) for q in ref.outputs} if ref.implicit else {}
                        if ref.implicit:
                            ref.set_outputs(state)
                            cand.set_outputs(state)
                        yr = ref.run(x)
                        if not cm.finite(yr):
                            rec_.skip('outside the reference domain')
                            continue
                        pr = probe(ref, r1, x, yr, state, perm, ins, outs, n, other)
                        if ref.implicit:
                            cand.set_outputs(state)
                        yc = cand.run(x)
                        pc = probe(cand, c1, x, yc, state, perm, ins, outs, n, other)
                except EvalTimeout:
                    rec_.skip('timeout')
                    continue
                except CaseTimeout:
                    raise
                except Exception:
                    rec_.skip('outside the reference domain')
                    continue
                rec_.case((cm.name(rec), n, kind, round(float(sum(np.sum(v) for v in x.values())), 6)))
                for (q, how), (d, got) in pc.items():
                    dr = pr.get((q, how), (np.inf,))[0]
                    if not dr <= 1e-9:
                        rec_.skip('output relates nodes by definition')
                        rec_.seen('outputs that relate nodes', f'{rec["cls"]}.{q}')
                        continue
                    rec_.event('node independence')
                    if np.ptp(np.ravel(yc[q])) > 0:
                        rec_.event('node independence, values differ between nodes')
                    if not d <= 1e-8:
                        rec_.violation(
                            f'{rec["cls"]}.{q}: {how}',
                            f'{cm.name(rec)} {kind}, {n} nodes: changes by {d:.2e} when evaluated {how}',
                            component=cm.name(rec), options=o, inputs=x, permutation=perm, node=other[0], got=got, value=yc[q],
                        )


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    from collections import defaultdict

    by = defaultdict(list)
    for r in cm.load_corpus():
        if 'num_nodes' in r['opts'] or 'nn' in r['opts']:
            by[(r['mod'], r['cls'])].append(r)
    sel = []
    for k, l in by.items():
        idx = chk.rng('select', *k).permutation(len(l))[: chk.pick(4, None)]
        sel += [l[i] for i in idx]
    chk.rule = 'a case is one component instance with a random node count at one generated input point with pairwise different nodes'
    chk.pmap(run_record, [(r, chk.pick(10, 120), chk.seed, chk.pick(15, 120)) for r in sel], timeout=chk.pick(60, 400))
    chk.require('node independence', 3000)
    chk.require('node independence, values differ between nodes', 1000)
