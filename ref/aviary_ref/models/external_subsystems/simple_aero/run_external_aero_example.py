"""Run the a mission with a simple external component that computes aircraft lift and drag."""

from copy import deepcopy

import aviary_ref.api as av
from aviary_ref.models.external_subsystems.simple_aero.simple_aero_builder import SimpleAeroBuilder

phase_info = deepcopy(av.default_energy_state_phase_info)

# Just do cruise in this example.
phase_info.pop('climb')
phase_info.pop('descent')

# Disable internal aero
# TODO: This API for replacing aero will be changed an upcoming release.
phase_info['cruise']['subsystem_options']['aerodynamics'] = {
    'method': 'external',
}

# Start cruise at t=0.
del phase_info['cruise']['user_options']['time_initial_bounds']
phase_info['cruise']['user_options']['time_initial'] = (0.0, 'min')


if __name__ == '__main__':
    prob = av.AviaryProblem()

    # Load aircraft and options data from user
    # Allow for user overrides here
    prob.load_inputs(
        'models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv', phase_info
    )

    prob.load_external_subsystems([SimpleAeroBuilder()])

    prob.check_and_preprocess_inputs()

    prob.build_model()

    # Note, SLSQP has trouble here.
    prob.add_driver('IPOPT')

    prob.add_design_variables()

    prob.add_objective()

    prob.setup()

    prob.run_aviary_problem(suppress_solver_print=True)

    print('done')
