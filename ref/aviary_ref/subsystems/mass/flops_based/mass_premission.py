import openmdao.api as om

from aviary_ref.subsystems.mass.flops_based.air_conditioning import AltAirCondMass, TransportAirCondMass
from aviary_ref.subsystems.mass.flops_based.anti_icing import AntiIcingMass
from aviary_ref.subsystems.mass.flops_based.apu import TransportAPUMass
from aviary_ref.subsystems.mass.flops_based.avionics import TransportAvionicsMass
from aviary_ref.subsystems.mass.flops_based.canard import CanardMass
from aviary_ref.subsystems.mass.flops_based.cargo_containers import TransportCargoContainersMass
from aviary_ref.subsystems.mass.flops_based.crew import CabinCrewMass, FlightCrewMass
from aviary_ref.subsystems.mass.flops_based.electrical import AltElectricalMass, ElectricalMass
from aviary_ref.subsystems.mass.flops_based.engine import EngineMass
from aviary_ref.subsystems.mass.flops_based.engine_controls import TransportEngineCtrlsMass
from aviary_ref.subsystems.mass.flops_based.engine_oil import AltEngineOilMass, TransportEngineOilMass
from aviary_ref.subsystems.mass.flops_based.fin import FinMass
from aviary_ref.subsystems.mass.flops_based.fuel_capacity import FuelCapacityGroup
from aviary_ref.subsystems.mass.flops_based.fuel_system import (
    AltFuelSystemMass,
    TransportFuelSystemMass,
)
from aviary_ref.subsystems.mass.flops_based.furnishings import (
    AltFurnishingsGroupMassBase,
    BWBFurnishingsGroupMass,
    TransportFurnishingsGroupMass,
)
from aviary_ref.subsystems.mass.flops_based.fuselage import (
    AltFuselageMass,
    BWBFuselageMass,
    TransportFuselageMass,
)
from aviary_ref.subsystems.mass.flops_based.horizontal_tail import (
    AltHorizontalTailMass,
    HorizontalTailMass,
)
from aviary_ref.subsystems.mass.flops_based.hydraulics import (
    AltHydraulicsGroupMass,
    TransportHydraulicsGroupMass,
)
from aviary_ref.subsystems.mass.flops_based.instruments import TransportInstrumentMass
from aviary_ref.subsystems.mass.flops_based.landing_group import LandingMassGroup
from aviary_ref.subsystems.mass.flops_based.mass_summation import MassSummation
from aviary_ref.subsystems.mass.flops_based.misc_engine import EngineMiscMass
from aviary_ref.subsystems.mass.flops_based.nacelle import NacelleMass
from aviary_ref.subsystems.mass.flops_based.paint import PaintMass
from aviary_ref.subsystems.mass.flops_based.passenger_service import (
    AltPassengerServiceMass,
    PassengerServiceMass,
)
from aviary_ref.subsystems.mass.flops_based.payload import PayloadGroup
from aviary_ref.subsystems.mass.flops_based.starter import TransportStarterMass
from aviary_ref.subsystems.mass.flops_based.surface_controls import (
    AltSurfaceControlMass,
    SurfaceControlMass,
)
from aviary_ref.subsystems.mass.flops_based.thrust_reverser import ThrustReverserMass
from aviary_ref.subsystems.mass.flops_based.unusable_fuel import (
    AltUnusableFuelMass,
    TransportUnusableFuelMass,
)
from aviary_ref.subsystems.mass.flops_based.vertical_tail import AltVerticalTailMass, VerticalTailMass
from aviary_ref.subsystems.mass.flops_based.wing_group import WingMassGroup
from aviary_ref.variable_info.enums import AircraftTypes
from aviary_ref.variable_info.functions import add_aviary_option
from aviary_ref.variable_info.variables import Aircraft


class MassPremission(om.Group):
    """
    Pre-mission group of top-level mass estimation groups and components for FLOPS-based analysis:
    PayloadGroup, TransportCargoContainersMass, TransportEngineCtrlsMass, TransportAvionicsMass,
    FuelCapacityGroup, EngineMass, etc.
    """

    def initialize(self):
        add_aviary_option(self, Aircraft.Design.USE_ALT_MASS)
        add_aviary_option(self, Aircraft.Design.TYPE)

    def setup(self):
        alt_mass = self.options[Aircraft.Design.USE_ALT_MASS]
        design_type = self.options[Aircraft.Design.TYPE]

        self.add_subsystem('cargo', PayloadGroup(), promotes_inputs=['*'], promotes_outputs=['*'])

        self.add_subsystem(
            'cargo_containers',
            TransportCargoContainersMass(),
            promotes_inputs=['*'],
            promotes_outputs=['*'],
        )

        self.add_subsystem(
            'engine_controls',
            TransportEngineCtrlsMass(),
            promotes_inputs=['*'],
            promotes_outputs=['*'],
        )

        self.add_subsystem(
            'avionics', TransportAvionicsMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem(
            'fuel_capacity_group',
            FuelCapacityGroup(),
            promotes_inputs=['*'],
            promotes_outputs=['*'],
        )

        self.add_subsystem(
            'engine_mass', EngineMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        if alt_mass:
            self.add_subsystem(
                'fuel_system',
                AltFuelSystemMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'AC', AltAirCondMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

            self.add_subsystem(
                'engine_oil', AltEngineOilMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

            self.add_subsystem(
                'furnishing_base',
                AltFurnishingsGroupMassBase(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'hydraulics',
                AltHydraulicsGroupMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'pass_service',
                AltPassengerServiceMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'unusable_fuel',
                AltUnusableFuelMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'electrical', AltElectricalMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

            self.add_subsystem(
                'surf_ctrl', AltSurfaceControlMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

            self.add_subsystem(
                'fuselage',
                AltFuselageMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'htail',
                AltHorizontalTailMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'vert_tail', AltVerticalTailMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

        else:
            self.add_subsystem(
                'fuel_system',
                TransportFuelSystemMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'AC', TransportAirCondMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

            self.add_subsystem(
                'engine_oil',
                TransportEngineOilMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            if design_type == AircraftTypes.BLENDED_WING_BODY:
                self.add_subsystem(
                    'furnishings',
                    BWBFurnishingsGroupMass(),
                    promotes_inputs=['*'],
                    promotes_outputs=['*'],
                )
            else:
                self.add_subsystem(
                    'furnishings',
                    TransportFurnishingsGroupMass(),
                    promotes_inputs=['*'],
                    promotes_outputs=['*'],
                )

            self.add_subsystem(
                'hydraulics',
                TransportHydraulicsGroupMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'pass_service',
                PassengerServiceMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'unusable_fuel',
                TransportUnusableFuelMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'electrical', ElectricalMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

            self.add_subsystem(
                'surf_ctrl', SurfaceControlMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

            if design_type == AircraftTypes.BLENDED_WING_BODY:
                self.add_subsystem(
                    'fuselage',
                    BWBFuselageMass(),
                    promotes_inputs=['*'],
                    promotes_outputs=['*'],
                )
            else:
                self.add_subsystem(
                    'fuselage',
                    TransportFuselageMass(),
                    promotes_inputs=['*'],
                    promotes_outputs=['*'],
                )

            self.add_subsystem(
                'htail',
                HorizontalTailMass(),
                promotes_inputs=['*'],
                promotes_outputs=['*'],
            )

            self.add_subsystem(
                'vert_tail', VerticalTailMass(), promotes_inputs=['*'], promotes_outputs=['*']
            )

        self.add_subsystem(
            'starter', TransportStarterMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem(
            'anti_icing', AntiIcingMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem('apu', TransportAPUMass(), promotes_inputs=['*'], promotes_outputs=['*'])

        self.add_subsystem(
            'cabin_crew', CabinCrewMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem(
            'flight_crew', FlightCrewMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem(
            'instruments', TransportInstrumentMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem(
            'misc_engine', EngineMiscMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem('nacelle', NacelleMass(), promotes_inputs=['*'], promotes_outputs=['*'])

        self.add_subsystem('paint', PaintMass(), promotes_inputs=['*'], promotes_outputs=['*'])

        self.add_subsystem(
            'thrust_rev', ThrustReverserMass(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem(
            'landing_group', LandingMassGroup(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem('canard', CanardMass(), promotes_inputs=['*'], promotes_outputs=['*'])

        self.add_subsystem('fin', FinMass(), promotes_inputs=['*'], promotes_outputs=['*'])

        self.add_subsystem(
            'wing_group', WingMassGroup(), promotes_inputs=['*'], promotes_outputs=['*']
        )

        self.add_subsystem(
            'mass_summation',
            MassSummation(add_alt_furnishings=alt_mass),
            promotes_inputs=['*'],
            promotes_outputs=['*'],
        )

        self.set_input_defaults(Aircraft.Fuel.DENSITY, units='lbm/galUS')
