"""Derivatives supplied by the components are those of their outputs."""
from collections import defaultdict

from vlib import compmon as cm, derivs

# engineering utilities that are run once, without an optimizer (they declare finite differences)
SKIP = {'AtmosCalc', 'CalculateIdle'}


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    by = defaultdict(list)
    for r in cm.load_corpus():
        if r['cls'] not in SKIP:
            by[(r['mod'], r['cls'])].append(r)
    sel = []
    for k, l in by.items():
        idx = chk.rng('select', *k).permutation(len(l))[: chk.pick(8, None)]
        sel += [l[i] for i in idx]
    chk.rule = (
        'a case is one component instance (class, options) at one generated input point; every input is perturbed '
        'along one random direction; non-trivial if the difference quotient of an output is not zero'
    )
    chk.pmap(
        derivs.run_record,
        [(r, chk.pick(6, 40), chk.seed, chk.pick(12, 120), chk.pick(12, None), chk.pick(1, 3)) for r in sel],
        timeout=chk.pick(30, 300),
    )
    chk.require('derivative comparison', 5000)
    chk.require('nonzero derivative comparison', 2000)
