"""Geometry models compute the published equations."""
from vlib import fidelity, groupmon


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = fidelity.RULE + '; or one group of components, driven at its promoted names'
    fidelity.run_group(chk, ['subsystems.geometry'], chk.pick(300, 1500), chk.pick(8, 30), per_class=chk.pick(12, None), tlim=chk.pick(20, 200))
    groupmon.run_groups(chk, ['subsystems.geometry'], chk.pick(12, 120), chk.pick(5, 30), per_class=chk.pick(10, None), tlim=chk.pick(12, 120))
    chk.require('reference comparison', 3000)
