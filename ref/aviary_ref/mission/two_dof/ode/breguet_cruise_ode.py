import numpy as np
import openmdao.api as om

from aviary_ref.mission.two_dof.ode.breguet_cruise_eom import ElectricRangeComp, RangeComp
from aviary_ref.mission.two_dof.ode.two_dof_ode import TwoDOFODE
from aviary_ref.mission.ode.altitude_rate import AltitudeRate
from aviary_ref.mission.ode.specific_energy_rate import SpecificEnergyRate
from aviary_ref.subsystems.aerodynamics.aerodynamics_builder import AerodynamicsBuilder
from aviary_ref.subsystems.mass.mass_to_weight import MassToWeight
from aviary_ref.subsystems.propulsion.propulsion_builder import PropulsionBuilder
from aviary_ref.variable_info.enums import SpeedType
from aviary_ref.variable_info.variables import Dynamic


class BreguetCruiseODE(TwoDOFODE):
    """The GASP based cruise ODE."""

    def setup(self):
        nn = self.options['num_nodes']
        aviary_options = self.options['aviary_options']
        subsystems = self.options['subsystems']
        subsystem_options = self.options['subsystem_options']
        user_options = self.options['user_options']

        self.add_atmosphere(input_speed_type=SpeedType.MACH)

        self.add_subsystem(
            'calc_weight',
            MassToWeight(num_nodes=nn),
            promotes_inputs=['mass'],
            promotes_outputs=['weight'],
        )

        prop_group = om.Group()

        for subsystem in subsystems:
            # check if subsystem_options has entry for a subsystem of this name
            if subsystem.name in subsystem_options:
                kwargs = subsystem_options[subsystem.name]
            else:
                kwargs = {}

            if isinstance(subsystem, AerodynamicsBuilder):
                # set default options for Aero if not specified by user
                base_kwargs = {'method': 'cruise', 'output_alpha': True}
                kwargs.update(base_kwargs)

            system = subsystem.build_mission(
                num_nodes=nn,
                aviary_inputs=aviary_options,
                user_options=user_options,
                subsystem_options=kwargs,
            )

            if system is not None:
                if isinstance(subsystem, PropulsionBuilder):
                    target = prop_group
                else:
                    target = self

                mission_in = subsystem.mission_inputs(
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options=kwargs,
                )
                mission_out = subsystem.mission_outputs(
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options=kwargs,
                )
                target.add_subsystem(
                    subsystem.name,
                    system,
                    promotes_inputs=mission_in,
                    promotes_outputs=mission_out,
                )

        bal = om.BalanceComp(
            name=Dynamic.Vehicle.Propulsion.THROTTLE,
            val=np.ones(nn),
            upper=1.0,
            lower=0.0,
            units='unitless',
            lhs_name=Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
            rhs_name=Dynamic.Vehicle.DRAG,
            eq_units='lbf',
        )

        prop_group.add_subsystem(
            'thrust_balance', subsys=bal, promotes_inputs=['*'], promotes_outputs=['*']
        )

        prop_group.linear_solver = om.DirectSolver()

        prop_group.nonlinear_solver = om.NewtonSolver(
            solve_subsystems=True,
            maxiter=20,
            rtol=1e-12,
            atol=1e-12,
            err_on_non_converge=False,
        )
        prop_group.nonlinear_solver.linesearch = om.BoundsEnforceLS()

        prop_group.nonlinear_solver.options['iprint'] = 2
        prop_group.linear_solver.options['iprint'] = 2

        self.add_subsystem(
            'prop_group', subsys=prop_group, promotes_inputs=['*'], promotes_outputs=['*']
        )

        #
        # collect initial/final outputs
        #
        self.add_subsystem(
            'breguet_eom',
            RangeComp(num_nodes=nn),
            promotes_inputs=[
                ('cruise_distance_initial', 'initial_distance'),
                ('cruise_time_initial', 'initial_time'),
                'mass',
                Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL,
                ('TAS_cruise', Dynamic.Mission.VELOCITY),
            ],
            promotes_outputs=[
                ('cruise_range', Dynamic.Mission.DISTANCE),
                ('cruise_time', 'time'),
            ],
        )

        self.add_subsystem(
            name='SPECIFIC_ENERGY_RATE_EXCESS',
            subsys=SpecificEnergyRate(num_nodes=nn),
            promotes_inputs=[
                Dynamic.Mission.VELOCITY,
                Dynamic.Vehicle.MASS,
                (
                    Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
                    Dynamic.Vehicle.Propulsion.THRUST_MAX_TOTAL,
                ),
                Dynamic.Vehicle.DRAG,
            ],
            promotes_outputs=[
                (
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE,
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE_EXCESS,
                )
            ],
        )

        self.add_subsystem(
            name='ALTITUDE_RATE_MAX',
            subsys=AltitudeRate(num_nodes=nn),
            promotes_inputs=[
                (
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE,
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE_EXCESS,
                ),
                Dynamic.Mission.VELOCITY_RATE,
                Dynamic.Mission.VELOCITY,
            ],
            promotes_outputs=[(Dynamic.Mission.ALTITUDE_RATE, Dynamic.Mission.ALTITUDE_RATE_MAX)],
        )

        self.set_input_defaults(Dynamic.Mission.ALTITUDE, val=np.ones(nn), units='ft')
        self.set_input_defaults('mass', val=np.ones(nn), units='lbm')


class ElectricBreguetCruiseODE(TwoDOFODE):
    """The GASP based cruise ODE for electric aircraft."""

    def setup(self):
        nn = self.options['num_nodes']
        aviary_options = self.options['aviary_options']
        subsystems = self.options['subsystems']
        subsystem_options = self.options['subsystem_options']
        user_options = self.options['user_options']

        self.add_atmosphere(input_speed_type=SpeedType.MACH)

        self.add_subsystem(
            'calc_weight',
            MassToWeight(num_nodes=nn),
            promotes_inputs=['mass'],
            promotes_outputs=['weight'],
        )

        prop_group = om.Group()

        for subsystem in subsystems:
            # check if subsystem_options has entry for a subsystem of this name
            if subsystem.name in subsystem_options:
                kwargs = subsystem_options[subsystem.name]
            else:
                kwargs = {}

            if isinstance(subsystem, AerodynamicsBuilder):
                # set default options for Aero if not specified by user
                base_kwargs = {'method': 'cruise', 'output_alpha': True}
                kwargs.update(base_kwargs)

            system = subsystem.build_mission(
                num_nodes=nn,
                aviary_inputs=aviary_options,
                user_options=user_options,
                subsystem_options=kwargs,
            )
            if system is not None:
                if isinstance(subsystem, PropulsionBuilder):
                    target = prop_group
                else:
                    target = self

                mission_in = subsystem.mission_inputs(
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options=kwargs,
                )
                mission_out = subsystem.mission_outputs(
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options=kwargs,
                )
                target.add_subsystem(
                    subsystem.name,
                    system,
                    promotes_inputs=mission_in,
                    promotes_outputs=mission_out,
                )

        bal = om.BalanceComp(
            name=Dynamic.Vehicle.Propulsion.THROTTLE,
            val=np.ones(nn),
            upper=1.0,
            lower=0.0,
            units='unitless',
            lhs_name=Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
            rhs_name=Dynamic.Vehicle.DRAG,
            eq_units='lbf',
        )

        prop_group.add_subsystem(
            'thrust_balance', subsys=bal, promotes_inputs=['*'], promotes_outputs=['*']
        )

        prop_group.linear_solver = om.DirectSolver()

        prop_group.nonlinear_solver = om.NewtonSolver(
            solve_subsystems=True,
            maxiter=20,
            rtol=1e-12,
            atol=1e-12,
            err_on_non_converge=False,
        )
        prop_group.nonlinear_solver.linesearch = om.BoundsEnforceLS()

        prop_group.nonlinear_solver.options['iprint'] = 2
        prop_group.linear_solver.options['iprint'] = 2

        self.add_subsystem(
            'prop_group', subsys=prop_group, promotes_inputs=['*'], promotes_outputs=['*']
        )

        #
        # collect initial/final outputs
        #
        self.add_subsystem(
            'electric_breguet_eom',
            ElectricRangeComp(num_nodes=nn),
            promotes_inputs=[
                ('cruise_distance_initial', 'initial_distance'),
                ('cruise_time_initial', 'initial_time'),
                Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED,
                Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL,
                ('TAS_cruise', Dynamic.Mission.VELOCITY),
            ],
            promotes_outputs=[
                ('cruise_range', Dynamic.Mission.DISTANCE),
                ('cruise_time', 'time'),
            ],
        )

        self.add_subsystem(
            name='SPECIFIC_ENERGY_RATE_EXCESS',
            subsys=SpecificEnergyRate(num_nodes=nn),
            promotes_inputs=[
                Dynamic.Mission.VELOCITY,
                Dynamic.Vehicle.MASS,
                (
                    Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
                    Dynamic.Vehicle.Propulsion.THRUST_MAX_TOTAL,
                ),
                Dynamic.Vehicle.DRAG,
            ],
            promotes_outputs=[
                (
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE,
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE_EXCESS,
                )
            ],
        )

        self.add_subsystem(
            name='ALTITUDE_RATE_MAX',
            subsys=AltitudeRate(num_nodes=nn),
            promotes_inputs=[
                (
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE,
                    Dynamic.Mission.SPECIFIC_ENERGY_RATE_EXCESS,
                ),
                Dynamic.Mission.VELOCITY_RATE,
                Dynamic.Mission.VELOCITY,
            ],
            promotes_outputs=[(Dynamic.Mission.ALTITUDE_RATE, Dynamic.Mission.ALTITUDE_RATE_MAX)],
        )

        self.set_input_defaults(Dynamic.Mission.ALTITUDE, val=37500 * np.ones(nn), units='ft')
        self.set_input_defaults('mass', val=np.linspace(171481, 171581 - 10000, nn), units='lbm')
