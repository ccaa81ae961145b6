import numpy as np

from aviary_ref.mission.two_dof.ode.accel_eom import AccelerationRates
from aviary_ref.mission.two_dof.ode.two_dof_ode import TwoDOFODE
from aviary_ref.subsystems.mass.mass_to_weight import MassToWeight
from aviary_ref.variable_info.variables import Dynamic


class AccelODE(TwoDOFODE):
    """ODE for level acceleration.

    In level acceleration, there are only nonzero net forces in the direction of motion.
    There is a balance component to solve for the angle of attack necessary to make lift
    equal to weight. Acceleration results from engine thrust in excess of drag.
    """

    def setup(self):
        nn = self.options['num_nodes']

        self.add_atmosphere()

        self.add_subsystem(
            'calc_weight',
            MassToWeight(num_nodes=nn),
            promotes_inputs=[('mass', Dynamic.Vehicle.MASS)],
            promotes_outputs=['weight'],
        )

        kwargs = {
            'method': 'cruise',
            'output_alpha': True,
        }
        self.options['subsystem_options'].setdefault('aerodynamics', {}).update(kwargs)

        self.add_subsystems()

        self.add_subsystem(
            'accel_eom',
            AccelerationRates(num_nodes=nn),
            promotes_inputs=[
                Dynamic.Vehicle.MASS,
                Dynamic.Mission.VELOCITY,
                Dynamic.Vehicle.DRAG,
                Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
            ],
            promotes_outputs=[
                Dynamic.Mission.VELOCITY_RATE,
                Dynamic.Mission.DISTANCE_RATE,
            ],
        )

        self.add_excess_rate_comps(nn)

        self.set_input_defaults(Dynamic.Vehicle.MASS, val=np.ones(nn), units='lbm')
        self.set_input_defaults(Dynamic.Mission.ALTITUDE, val=np.ones(nn), units='ft')
        self.set_input_defaults(
            Dynamic.Mission.VELOCITY, val=np.ones(nn), units='m/s'
        )  # val here is nominal
