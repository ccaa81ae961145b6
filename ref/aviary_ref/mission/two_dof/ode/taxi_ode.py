import numpy as np
import openmdao.api as om

from aviary_ref.mission.two_dof.ode.taxi_eom import TaxiFuelComponent
from aviary_ref.mission.two_dof.ode.two_dof_ode import TwoDOFODE
from aviary_ref.subsystems.propulsion.propulsion_builder import PropulsionBuilder
from aviary_ref.utils.aviary_values import AviaryValues
from aviary_ref.variable_info.enums import SpeedType
from aviary_ref.variable_info.variable_meta_data import CoreMetaData
from aviary_ref.variable_info.variables import Aircraft, Dynamic, Mission


class TaxiSegment(TwoDOFODE):
    """ODE for taxi phase of a 2DOF mission."""

    def setup(self):
        options: AviaryValues = self.options['aviary_options']
        subsystems = self.options['subsystems']
        user_options = self.options['user_options']

        alias_comp = om.ExecComp(
            'alt=airport_alt',
            alt={
                'val': np.zeros(1),
                'units': 'ft',
            },
            airport_alt={'val': np.zeros(1), 'units': 'ft'},
            has_diag_partials=True,
        )

        alias_comp.add_expr(
            'mach=taxi_mach',
            mach={'val': np.zeros(1), 'units': 'unitless'},
            taxi_mach={'val': np.zeros(1), 'units': 'unitless'},
        )

        self.add_subsystem(
            'alias_taxi_phase',
            alias_comp,
            promotes_inputs=[
                ('airport_alt', Mission.Takeoff.AIRPORT_ALTITUDE),
                ('taxi_mach', Mission.Taxi.MACH),
            ],
            promotes_outputs=[
                ('alt', Dynamic.Mission.ALTITUDE),
                ('mach', Dynamic.Atmosphere.MACH),
            ],
        )

        self.add_atmosphere(input_speed_type=SpeedType.MACH)

        for subsystem in subsystems:
            if isinstance(subsystem, PropulsionBuilder):
                system = subsystem.build_mission(
                    num_nodes=1,
                    aviary_inputs=options,
                    user_options=user_options,
                    subsystem_options={},
                )

                self.add_subsystem(
                    subsystem.name,
                    system,
                    promotes_inputs=['*'],
                    promotes_outputs=['*'],
                )

        self.add_subsystem('taxifuel', TaxiFuelComponent(), promotes=['*'])

        # Throttle Idle
        num_engine_types = len(options.get_val(Aircraft.Engine.NUM_ENGINES))
        self.set_input_defaults(
            Dynamic.Vehicle.Propulsion.THROTTLE, np.zeros((1, num_engine_types))
        )
