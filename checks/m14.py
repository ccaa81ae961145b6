"""A detailed takeoff or landing is the procedure its phases define."""
from vlib import detailed as dt


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one detailed takeoff or landing: which optional phases are flown, the options and initial guesses of every phase '
                '(values and units), the aerodynamic tables, airport, obstacle, friction and atmosphere, all drawn at random')
    n = chk.pick(28, 600)
    chk.pmap(dt.worker, [[chk.seed, 1414, i] for i in range(n)], timeout=chk.pick(200, 250))
    chk.require('driver problem comparison', 1000)
    chk.require('phase limit', 200)
    chk.require('phase link', 100)
    chk.require('point of the procedure', 30)
    chk.require('guess', 300)
    chk.require('acceleration on the runway', 200)
