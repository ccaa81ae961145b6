"""Example mission using the a detailed battery model."""

from aviary_ref.api import default_energy_state_phase_info as phase_info
from aviary_ref.core.aviary_problem import AviaryProblem
from aviary_ref.models.external_subsystems.detailed_battery.battery_variable_meta_data import (
    ExtendedMetaData,
)
from aviary_ref.models.external_subsystems.detailed_battery.detailed_battery_builder import (
    DetailedBatteryBuilder,
)
from aviary_ref.utils.functions import get_aviary_resource_path

battery_builder = DetailedBatteryBuilder(include_constraints=False)

prob = AviaryProblem()

# Load aircraft and options data from user
# Allow for user overrides here
input_file = get_aviary_resource_path(
    'models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv'
)
prob.load_inputs(input_file, phase_info, meta_data=ExtendedMetaData)

prob.load_external_subsystems([battery_builder])

prob.check_and_preprocess_inputs()

prob.build_model()

prob.add_driver('SLSQP')

prob.add_design_variables()

prob.add_objective('mass')
# prob.model.add_objective(
#     f'traj.climb.states:{Dynamic.Battery.STATE_OF_CHARGE}', index=-1, ref=-1)

prob.setup()

prob.run_aviary_problem()
