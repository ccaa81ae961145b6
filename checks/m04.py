"""Continuity of the trajectory and the fuel ledger."""
from vlib import missions as ms


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one mission definition (equations of motion, phases, reserve phases, options, fuel margins and aircraft), '
                'built and run; boundaries, fuel ledger, residuals and targets are judged on the timeseries, the rest against the reference')
    it = ms.items(chk, 'M04', chk.pick({'ES': 40, '2DOF': 10, 'S2DOF': 28}, {'ES': 700, '2DOF': 160, 'S2DOF': 300}), 3)
    chk.pmap(ms.m04_worker, it, timeout=chk.pick(150, 300))
    chk.require('phase boundary continuity', 200)
    chk.require('fuel ledger', 200)
    chk.require('driver problem comparison', 1000)
