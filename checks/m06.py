"""Every phase option does what it says and nothing else."""
from vlib import missions as ms


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one mission definition with several phase options (any option the phase declares) given random values, '
                'units and constraints; the trajectory problem that results is judged option by option and against the reference')
    it = ms.items(chk, 'M06', chk.pick({'ES': 80, '2DOF': 22, 'S2DOF': 56}, {'ES': 1200, '2DOF': 300, 'S2DOF': 700}), chk.pick(6, 6))
    chk.pmap(ms.m06_worker, it, timeout=chk.pick(120, 200))
    chk.require('driver problem comparison', 2000)
    chk.require('option monitor', 300)
