import numpy as np
import openmdao.api as om

from aviary_ref.mission.solved_two_dof.ode.unsteady_solved_eom import UnsteadySolvedEOM
from aviary_ref.utils.aviary_values import AviaryValues
from aviary_ref.variable_info.variables import Dynamic


class UnsteadyControlIterGroup(om.Group):
    """This Group contains a nonlinear solver to determine alpha and thrust for a given flight condition."""

    def initialize(self):
        self.options.declare('num_nodes', types=int)
        self.options.declare(
            'ground_roll',
            types=bool,
            default=False,
            desc='True if the aircraft is confined to the ground. Removes altitude rate as an '
            'output and adjusts the TAS rate equation.',
        )
        self.options.declare(
            'clean',
            types=bool,
            default=False,
            desc='If true then no flaps or gear are included. Useful for high-speed flight phases.',
        )

        self.options.declare(
            'aviary_options',
            types=AviaryValues,
            default=None,
            desc='collection of Aircraft/Mission specific options',
        )

        # TODO finish description
        self.options.declare('subsystems', desc='list of core subsystems')

        self.options.declare(
            'subsystem_options',
            types=dict,
            default={},
            desc='dictionary of optional arguments for the subsystems in this phase',
        )

        self.options.declare(
            'user_options',
            types=dict,
            default={},
            desc='dictionary of user options for this phase',
        )

    def setup(self):
        nn = self.options['num_nodes']
        ground_roll = self.options['ground_roll']
        clean = self.options['clean']
        aviary_options = self.options['aviary_options']
        subsystems = self.options['subsystems']
        subsystem_options = self.options['subsystem_options']
        user_options = self.options['user_options']

        kwargs = {}

        if clean:
            subsystem_options['method'] = 'low_speed'
        else:
            subsystem_options['method'] = 'cruise'

        for subsystem in subsystems:
            if subsystem.name in subsystem_options:
                kwargs.update(subsystem_options[subsystem.name])

            system = subsystem.build_mission(
                num_nodes=nn,
                aviary_inputs=aviary_options,
                user_options=user_options,
                subsystem_options=kwargs,
            )
            if system is not None:
                mission_in = subsystem.mission_inputs(
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options=kwargs,
                )
                mission_out = subsystem.mission_outputs(
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options=kwargs,
                )
                self.add_subsystem(
                    subsystem.name,
                    system,
                    promotes_inputs=mission_in,
                    promotes_outputs=mission_out,
                )
        eom_comp = UnsteadySolvedEOM(num_nodes=nn, ground_roll=ground_roll)

        self.add_subsystem(
            'eom',
            subsys=eom_comp,
            promotes_inputs=[
                '*',
                (Dynamic.Vehicle.Propulsion.THRUST_TOTAL, 'thrust_req'),
            ],
            promotes_outputs=['*'],
        )

        thrust_alpha_bal = om.BalanceComp()
        if not self.options['ground_roll']:
            thrust_alpha_bal.add_balance(
                Dynamic.Vehicle.ANGLE_OF_ATTACK,
                units='rad',
                val=np.zeros(nn),
                lhs_name='dgam_dt_approx',
                rhs_name='dgam_dt',
                eq_units='rad/s',
                normalize=False,
            )

        thrust_alpha_bal.add_balance(
            'thrust_req',
            units='N',
            val=100 * np.ones(nn),
            lhs_name='dTAS_dt_approx',
            rhs_name='dTAS_dt',
            eq_units='m/s**2',
            normalize=False,
        )

        self.add_subsystem(
            'thrust_alpha_bal',
            subsys=thrust_alpha_bal,
            promotes_inputs=['*'],
            promotes_outputs=['*'],
        )

        self.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, atol=1.0e-10, rtol=1.0e-10)
        # self.nonlinear_solver.linesearch = om.ArmijoGoldsteinLS()
        self.linear_solver = om.DirectSolver(assemble_jac=True)

        # Set common default values for promoted inputs
        onn = np.ones(nn)
        self.set_input_defaults(
            name=Dynamic.Atmosphere.SPEED_OF_SOUND, val=1116.4 * onn, units='ft/s'
        )
        if not self.options['ground_roll']:
            self.set_input_defaults(
                name=Dynamic.Mission.FLIGHT_PATH_ANGLE, val=0.0 * onn, units='rad'
            )
        self.set_input_defaults(name=Dynamic.Mission.VELOCITY, val=250.0 * onn, units='kn')
