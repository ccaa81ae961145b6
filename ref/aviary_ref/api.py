"""
This module is the API for Aviary aircraft analysis code.

For users: All built-in Aviary functions, code, and objects
should be imported from this file.

For developers: All Aviary code which is intended to be
user-facing should be imported to this file.
"""

# TODO: don't rename things here, do it in the entire codebase
# TODO: when documenting methods and classes, make sure to include documentation (printing of docstrings) for everything that's imported in this API
# TODO: remove overload prototype
# TODO: import and use the aviary api in all user-facing files rather than individual imports


###################
# General Imports #
###################

from aviary_ref.variable_info.variables import Aircraft, Mission, Dynamic, Settings
from aviary_ref.variable_info.options import is_option
from aviary_ref.utils.develop_metadata import add_meta_data, update_meta_data
from aviary_ref.variable_info.variable_meta_data import CoreMetaData
from aviary_ref.variable_info.functions import (
    add_aviary_input,
    add_aviary_output,
    add_aviary_option,
    get_units,
)
from aviary_ref.utils.merge_hierarchies import merge_hierarchies
from aviary_ref.utils.merge_variable_metadata import merge_meta_data
from aviary_ref.utils.named_values import NamedValues
from aviary_ref.utils.aviary_values import AviaryValues
from aviary_ref.utils.csv_data_file import read_data_file, write_data_file
from aviary_ref.utils.data_interpolator_builder import build_data_interpolator
from aviary_ref.variable_info.enums import *
from aviary_ref.models.missions.two_dof_default import phase_info as default_2DOF_phase_info
from aviary_ref.models.missions.energy_state_default import (
    phase_info as default_energy_state_phase_info,
)
from aviary_ref.interface.run_aviary import run_aviary
from aviary_ref.core.aviary_problem import AviaryProblem, reload_aviary_problem

# Converters
from aviary_ref.utils.engine_deck_conversion import convert_engine_deck
from aviary_ref.utils.fortran_to_aviary import fortran_to_aviary
from aviary_ref.utils.aero_table_conversion import convert_aero_table

from aviary_ref.utils.functions import (
    get_path,
    set_aviary_initial_values,
    set_aviary_input_defaults,
    top_dir,
)
from aviary_ref.utils.options import list_options
from aviary_ref.constants import (
    GRAV_ENGLISH_LBM,
    PSLS_PSF,
    TSLS_DEGR,
)
from aviary_ref.subsystems.test.subsystem_tester import (
    TestSubsystemBuilder,
)
from aviary_ref.subsystems.propulsion.utils import build_engine_deck

###################
# Level 3 Imports #
###################
# Model Setup
from aviary_ref.variable_info.functions import (
    override_aviary_vars,
    setup_model_options,
    setup_trajectory_params,
)

# Miscellaneous
from aviary_ref.subsystems.premission import CorePreMission
from aviary_ref.subsystems.subsystem_builder import SubsystemBuilder
from aviary_ref.utils.process_input_decks import create_vehicle

# Preprocessors
from aviary_ref.utils.preprocessors import (
    preprocess_options,
    preprocess_crewpayload,
    preprocess_fuel_capacities,
    preprocess_propulsion,
)

# ODEs
# TODO: check and see if this works with both sides, or just GASP
from aviary_ref.mission.base_ode import BaseODE
from aviary_ref.mission.energy_state.ode.energy_state_ODE import EnergyStateODE
from aviary_ref.mission.energy_state.ode.landing_ode import LandingODE as DetailedLandingODE
from aviary_ref.mission.energy_state.ode.landing_ode import FlareODE as DetailedFlareODE
from aviary_ref.mission.energy_state.ode.takeoff_ode import TakeoffODE as DetailedTakeoffODE
from aviary_ref.mission.energy_state.phases.simplified_takeoff import (
    TakeoffGroup as EnergyStateSimplifiedTakeoff,
)
from aviary_ref.mission.energy_state.phases.simplified_landing import (
    LandingGroup as EnergyStateSimplifiedLanding,
)
from aviary_ref.mission.two_dof.ode.two_dof_ode import TwoDOFODE
from aviary_ref.mission.two_dof.ode.accel_ode import AccelODE as TwoDOFAccelerationODE
from aviary_ref.mission.two_dof.ode.breguet_cruise_ode import BreguetCruiseODE, ElectricBreguetCruiseODE
from aviary_ref.mission.two_dof.ode.flight_ode import FlightODE as TwoDOFFlightODE
from aviary_ref.mission.two_dof.ode.takeoff_ode import TakeOffODE as TwoDOFTakeOffODE
from aviary_ref.mission.two_dof.ode.landing_ode import LandingSegment as TwoDOFSimplifiedLanding
from aviary_ref.mission.two_dof.ode.taxi_ode import TaxiSegment as AnalyticTaxi

# Phase builders
from aviary_ref.mission.phase_builder import PhaseBuilder

# note that this is only for simplified right now
from aviary_ref.mission.energy_state.phases.energy_phase import (
    EnergyPhase as EnergyStatePhaseBuilder,
)
from aviary_ref.mission.energy_state.phases.build_landing import (
    Landing as EnergyStateLandingPhaseBuilder,
)

# note that this is only for simplified right now
from aviary_ref.mission.energy_state.phases.build_takeoff import (
    Takeoff as EnergyStateTakeoffPhaseBuilder,
)
from aviary_ref.mission.energy_state.phases.detailed_landing_phases import (
    LandingApproachToMicP3 as DetailedLandingApproachToMicP3PhaseBuilder,
    LandingMicP3ToObstacle as DetailedLandingMicP3ToObstaclePhaseBuilder,
    LandingObstacleToFlare as DetailedLandingObstacleToFlarePhaseBuilder,
    LandingFlareToTouchdown as DetailedLandingFlareToTouchdownPhaseBuilder,
    LandingTouchdownToNoseDown as DetailedLandingTouchdownToNoseDownPhaseBuilder,
    LandingNoseDownToStop as DetailedLandingNoseDownToStopPhaseBuilder,
)
from aviary_ref.mission.energy_state.phases.detailed_takeoff_phases import (
    TakeoffBrakeReleaseToDecisionSpeed as DetailedTakeoffBrakeReleaseToDecisionSpeedPhaseBuilder,
    TakeoffDecisionSpeedToRotate as DetailedTakeoffDecisionSpeedToRotatePhaseBuilder,
    TakeoffDecisionSpeedBrakeDelay as DetailedTakeoffDecisionSpeedBrakeDelayPhaseBuilder,
    TakeoffRotateToLiftoff as DetailedTakeoffRotateToLiftoffPhaseBuilder,
    TakeoffLiftoffToObstacle as DetailedTakeoffLiftoffToObstaclePhaseBuilder,
    TakeoffObstacleToMicP2 as DetailedTakeoffObstacleToMicP2PhaseBuilder,
    TakeoffMicP2ToEngineCutback as DetailedTakeoffMicP2ToEngineCutbackPhaseBuilder,
    TakeoffEngineCutback as DetailedTakeoffEngineCutbackPhaseBuilder,
    TakeoffEngineCutbackToMicP1 as DetailedTakeoffEngineCutbackToMicP1PhaseBuilder,
    TakeoffMicP1ToClimb as DetailedTakeoffMicP1ToClimbPhaseBuilder,
    TakeoffBrakeToAbort as DetailedTakeoffBrakeToAbortPhaseBuilder,
)

# Phase builders
from aviary_ref.mission.two_dof.phases.accel_phase import AccelPhase as TwoDOFAccelerationPhase
from aviary_ref.mission.two_dof.phases.flight_phase import FlightPhase as TwoDOFFlightPhase
from aviary_ref.mission.two_dof.phases.takeoff_phase import TakeoffPhase as TwoDOFTakeoffPhase
from aviary_ref.mission.two_dof.phases.breguet_cruise_phase import (
    BreguetCruisePhase,
    ElectricCruisePhase,
)

# Trajectory builders
from aviary_ref.mission.energy_state.phases.detailed_landing_phases import (
    LandingTrajectory as DetailedLandingTrajectoryBuilder,
)
from aviary_ref.mission.energy_state.phases.detailed_takeoff_phases import (
    TakeoffTrajectory as DetailedTakeoffTrajectoryBuilder,
)

##############
# Subsystems #
##############

# Aerodynamics
from aviary_ref.subsystems.aerodynamics.aerodynamics_builder import (
    AerodynamicsBuilder,
    CoreAerodynamicsBuilder,
)
from aviary_ref.subsystems.aerodynamics.flops_based.tabular_aero_group import TabularAeroGroup

# Atmosphere
from aviary_ref.subsystems.atmosphere.atmosphere import Atmosphere

# Energy
from aviary_ref.subsystems.energy.battery_builder import BatteryBuilder

# Geometry
from aviary_ref.subsystems.geometry.geometry_builder import GeometryBuilder, CoreGeometryBuilder

# Mass
from aviary_ref.subsystems.mass.mass_builder import MassBuilder, CoreMassBuilder

# Performance
from aviary_ref.subsystems.performance.performance_builder import (
    PerformanceBuilder,
    CorePerformanceBuilder,
)

# Propulsion
from aviary_ref.subsystems.propulsion.engine_deck import EngineDeck
from aviary_ref.subsystems.propulsion.engine_model import EngineModel
from aviary_ref.subsystems.propulsion.motor.motor_builder import MotorBuilder
from aviary_ref.subsystems.propulsion.propulsion_builder import (
    PropulsionBuilder,
    CorePropulsionBuilder,
)
from aviary_ref.subsystems.propulsion.turboprop_model import TurbopropModel
from aviary_ref.subsystems.propulsion.gearbox.gearbox_builder import GearboxBuilder
from aviary_ref.subsystems.propulsion.motor.motor_builder import MotorBuilder
from aviary_ref.subsystems.propulsion.propeller.propeller_builder import PropellerBuilder
