import numpy as np
import openmdao.api as om

from aviary_ref.mission.two_dof.ode.landing_eom import (
    GlideConditionComponent,
    LandingAltitudeComponent,
    LandingGroundRollComponent,
)
from aviary_ref.mission.two_dof.ode.two_dof_ode import TwoDOFODE
from aviary_ref.subsystems.aerodynamics.aerodynamics_builder import AerodynamicsBuilder
from aviary_ref.subsystems.atmosphere.atmosphere import Atmosphere
from aviary_ref.subsystems.propulsion.propulsion_builder import PropulsionBuilder
from aviary_ref.variable_info.enums import SpeedType
from aviary_ref.variable_info.variables import Aircraft, Dynamic, Mission


class LandingSegment(TwoDOFODE):
    """Group for a 2-degrees-of-freedom landing ODE."""

    def setup(self):
        aviary_options = self.options['aviary_options']
        subsystems = self.options['subsystems']
        user_options = self.options['user_options']

        self.add_subsystem(
            'approach_alt_comp',
            LandingAltitudeComponent(),
            promotes_inputs=[
                Mission.Landing.OBSTACLE_HEIGHT,
                Mission.Landing.AIRPORT_ALTITUDE,
            ],
            promotes_outputs=[Mission.Landing.INITIAL_ALTITUDE],
        )

        alias_comp = om.ExecComp(
            'alt=airport_alt',
            alt={
                'val': np.zeros(1),
                'units': 'ft',
            },
            airport_alt={'val': np.zeros(1), 'units': 'ft'},
        )

        alias_comp.add_expr(
            'mach=landing_mach',
            mach={'val': np.zeros(1), 'units': 'unitless'},
            landing_mach={'val': np.zeros(1), 'units': 'unitless'},
        )

        self.add_subsystem(
            'alias_landing_phase',
            alias_comp,
            promotes_inputs=[
                ('airport_alt', Mission.Landing.AIRPORT_ALTITUDE),
                ('landing_mach', Mission.Landing.INITIAL_MACH),
            ],
            promotes_outputs=[
                ('alt', Dynamic.Mission.ALTITUDE),
                ('mach', Dynamic.Atmosphere.MACH),
            ],
        )

        self.add_subsystem(
            name='atmosphere',
            subsys=Atmosphere(num_nodes=1, input_speed_type=SpeedType.MACH),
            promotes_inputs=[Dynamic.Mission.ALTITUDE, Dynamic.Atmosphere.MACH],
            promotes_outputs=[
                Dynamic.Atmosphere.DENSITY,
                Dynamic.Atmosphere.SPEED_OF_SOUND,
                Dynamic.Atmosphere.TEMPERATURE,
                Dynamic.Atmosphere.STATIC_PRESSURE,
                Dynamic.Atmosphere.DYNAMIC_VISCOSITY,
                Dynamic.Atmosphere.DYNAMIC_PRESSURE,
            ],
        )

        # collect the propulsion group names for later use with
        for subsystem in subsystems:
            if isinstance(subsystem, AerodynamicsBuilder):
                subsystem_options = {
                    'method': 'low_speed',
                    'retract_flaps': True,
                    'retract_gear': False,
                }
                aero_builder = subsystem
                aero_system = subsystem.build_mission(
                    num_nodes=1,
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options=subsystem_options,
                )
                self.add_subsystem(
                    subsystem.name,
                    aero_system,
                    promotes_inputs=[
                        '*',
                        Dynamic.Atmosphere.DENSITY,
                        Dynamic.Atmosphere.SPEED_OF_SOUND,
                        Dynamic.Atmosphere.DYNAMIC_VISCOSITY,
                        ('airport_alt', Mission.Landing.AIRPORT_ALTITUDE),
                        (Dynamic.Atmosphere.MACH, Mission.Landing.INITIAL_MACH),
                        Dynamic.Atmosphere.DYNAMIC_PRESSURE,
                        ('flap_defl', Aircraft.Wing.FLAP_DEFLECTION_LANDING),
                        ('t_init_flaps', 't_init_flaps_app'),
                        ('t_init_gear', 't_init_gear_app'),
                        ('CL_max_flaps', Mission.Landing.LIFT_COEFFICIENT_MAX),
                        (
                            'dCL_flaps_model',
                            Mission.Landing.LIFT_COEFFICIENT_FLAP_INCREMENT,
                        ),
                        (
                            'dCD_flaps_model',
                            Mission.Landing.DRAG_COEFFICIENT_FLAP_INCREMENT,
                        ),
                    ],
                    promotes_outputs=['CL_max'],
                )

            if isinstance(subsystem, PropulsionBuilder):
                propulsion_system = subsystem.build_mission(
                    num_nodes=1,
                    aviary_inputs=aviary_options,
                    user_options=user_options,
                    subsystem_options={},
                )
                propulsion_mission = self.add_subsystem(
                    subsystem.name,
                    propulsion_system,
                    promotes_inputs=['*'],
                    promotes_outputs=[(Dynamic.Vehicle.Propulsion.THRUST_TOTAL, 'thrust_idle')],
                )
                propulsion_mission.set_input_defaults(Dynamic.Vehicle.Propulsion.THROTTLE, 0.0)

        self.add_subsystem(
            'glide',
            GlideConditionComponent(),
            promotes_inputs=[
                Dynamic.Atmosphere.DENSITY,
                Mission.Landing.MAXIMUM_SINK_RATE,
                Dynamic.Vehicle.MASS,
                Aircraft.Wing.AREA,
                Mission.Landing.GLIDE_TO_STALL_RATIO,
                'CL_max',
                Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR,
                Mission.Landing.TOUCHDOWN_SINK_RATE,
                Mission.Landing.INITIAL_ALTITUDE,
                Mission.Landing.BRAKING_DELAY,
            ],
            promotes_outputs=[
                Mission.Landing.INITIAL_VELOCITY,
                Mission.Landing.STALL_VELOCITY,
                'TAS_touchdown',
                'density_ratio',
                'wing_loading_land',
                'theta',
                'glide_distance',
                'tr_distance',
                'delay_distance',
                'flare_alt',
            ],
        )

        self.add_subsystem(
            name='atmosphere_td',
            subsys=Atmosphere(num_nodes=1),
            promotes_inputs=[
                Dynamic.Mission.ALTITUDE,
                (Dynamic.Mission.VELOCITY, 'TAS_touchdown'),
            ],
            promotes_outputs=[
                (Dynamic.Atmosphere.DENSITY, 'rho_td'),
                (Dynamic.Atmosphere.SPEED_OF_SOUND, 'sos_td'),
                (Dynamic.Atmosphere.TEMPERATURE, 'T_td'),
                (Dynamic.Atmosphere.DYNAMIC_VISCOSITY, 'viscosity_td'),
                (Dynamic.Atmosphere.DYNAMIC_PRESSURE, 'q_td'),
                (Dynamic.Atmosphere.MACH, 'mach_td'),
            ],
        )

        subsystem_options = {'method': 'low_speed', 'retract_flaps': True, 'retract_gear': False}

        self.add_subsystem(
            'aero_td',
            aero_builder.build_mission(
                num_nodes=1,
                aviary_inputs=aviary_options,
                user_options=user_options,
                subsystem_options=subsystem_options,
            ),
            promotes_inputs=[
                '*',
                (Dynamic.Atmosphere.DENSITY, 'rho_td'),
                (Dynamic.Atmosphere.SPEED_OF_SOUND, 'sos_td'),
                (Dynamic.Atmosphere.DYNAMIC_VISCOSITY, 'viscosity_td'),
                ('airport_alt', Mission.Landing.AIRPORT_ALTITUDE),
                (Dynamic.Atmosphere.MACH, 'mach_td'),
                (Dynamic.Atmosphere.DYNAMIC_PRESSURE, 'q_td'),
                (Dynamic.Vehicle.ANGLE_OF_ATTACK, Aircraft.Wing.INCIDENCE),
                ('flap_defl', Aircraft.Wing.FLAP_DEFLECTION_LANDING),
                ('CL_max_flaps', Mission.Landing.LIFT_COEFFICIENT_MAX),
                (
                    'dCL_flaps_model',
                    Mission.Landing.LIFT_COEFFICIENT_FLAP_INCREMENT,
                ),
                (
                    'dCD_flaps_model',
                    Mission.Landing.DRAG_COEFFICIENT_FLAP_INCREMENT,
                ),
                ('t_init_flaps', 't_init_flaps_td'),
                ('t_init_gear', 't_init_gear_td'),
            ],
            promotes_outputs=[
                (Dynamic.Vehicle.DRAG_COEFFICIENT, 'touchdown_CD'),
                (Dynamic.Vehicle.LIFT_COEFFICIENT, 'touchdown_CL'),
            ],
        )
        # GASP seems to run groundroll with flaps up and gear down (IWLD=2)
        self.set_input_defaults('t_init_flaps_td', 1e10)  # never deploy
        self.set_input_defaults('t_init_gear_td', 1e10)  # ensure gear down

        self.add_subsystem(
            'landinggroundroll',
            LandingGroundRollComponent(),
            promotes_inputs=[
                'touchdown_CD',
                'touchdown_CL',
                'TAS_touchdown',
                'thrust_idle',
                'density_ratio',
                'wing_loading_land',
                'glide_distance',
                'tr_distance',
                'delay_distance',
                'CL_max',
                Dynamic.Vehicle.MASS,
                'mission:*',
            ],
            promotes_outputs=[
                'ground_roll_distance',
                'average_acceleration',
                'mission:*',
            ],
        )

        self.set_input_defaults(Mission.Landing.INITIAL_MACH, val=0.1)
        self.set_input_defaults(Mission.Landing.BRAKING_FRICTION_COEFFICIENT, val=0.4)

        # landing doesn't change flap or gear position
        self.set_input_defaults('t_init_flaps_app', val=1e10)
        self.set_input_defaults('t_init_gear_app', val=1e10)
        self.set_input_defaults(Mission.Landing.INITIAL_ALTITUDE, val=50, units='ft')
        self.set_input_defaults('aero_ramps.flap_factor:final_val', val=1.0)
        self.set_input_defaults('aero_ramps.gear_factor:final_val', val=1.0)
        self.set_input_defaults('aero_ramps.flap_factor:initial_val', val=0.0)
        self.set_input_defaults('aero_ramps.gear_factor:initial_val', val=0.0)

        self.set_input_defaults(Aircraft.Wing.AREA, val=1.0, units='ft**2')

        # Throttle Idle
        num_engine_types = len(aviary_options.get_val(Aircraft.Engine.NUM_ENGINES))
        self.set_input_defaults(
            Dynamic.Vehicle.Propulsion.THROTTLE, np.zeros((1, num_engine_types))
        )
