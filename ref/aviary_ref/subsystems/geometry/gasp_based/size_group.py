import openmdao.api as om

from aviary_ref.subsystems.geometry.gasp_based.electric import CableSize
from aviary_ref.subsystems.geometry.gasp_based.empennage import EmpennageSize
from aviary_ref.subsystems.geometry.gasp_based.engine import GASPEngineSizeGroup
from aviary_ref.subsystems.geometry.gasp_based.fuselage import FuselageGroup, BWBFuselageGroup
from aviary_ref.subsystems.geometry.gasp_based.wing import WingGroup, BWBWingGroup
from aviary_ref.variable_info.enums import AircraftTypes
from aviary_ref.variable_info.functions import add_aviary_option
from aviary_ref.variable_info.variables import Aircraft


class SizeGroup(om.Group):
    """Group to pull together all the different components and subgroups of the SIZE subroutine."""

    def initialize(self):
        add_aviary_option(self, Aircraft.Electrical.HAS_HYBRID_SYSTEM)
        add_aviary_option(self, Aircraft.Design.TYPE)

    def setup(self):
        design_type = self.options[Aircraft.Design.TYPE]

        if design_type is AircraftTypes.BLENDED_WING_BODY:
            self.add_subsystem(
                'fuselage',
                BWBFuselageGroup(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )
        elif design_type is AircraftTypes.TRANSPORT:
            self.add_subsystem(
                'fuselage',
                FuselageGroup(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

        if design_type is AircraftTypes.BLENDED_WING_BODY:
            self.add_subsystem(
                'wing',
                BWBWingGroup(),
                promotes=['*'],
            )
        elif design_type is AircraftTypes.TRANSPORT:
            self.add_subsystem(
                'wing',
                WingGroup(),
                promotes=['*'],
            )

        self.add_subsystem(
            'empennage',
            EmpennageSize(),
            promotes=['*'],
        )

        self.add_subsystem(
            'engine',
            GASPEngineSizeGroup(),
            promotes_inputs=['*'],
            promotes_outputs=['*'],
        )

        if self.options[Aircraft.Electrical.HAS_HYBRID_SYSTEM]:
            self.add_subsystem(
                'cable',
                CableSize(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

        self.set_input_defaults(Aircraft.Fuselage.AVG_DIAMETER, units='inch')
