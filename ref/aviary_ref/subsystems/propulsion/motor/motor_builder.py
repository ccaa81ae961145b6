from aviary_ref.subsystems.propulsion.motor.model.motor_mission import MotorMission
from aviary_ref.subsystems.propulsion.motor.model.motor_premission import MotorPreMission
from aviary_ref.subsystems.subsystem_builder import SubsystemBuilder
from aviary_ref.variable_info.variables import Aircraft, Dynamic
from aviary_ref.utils.aviary_values import AviaryValues


class MotorBuilder(SubsystemBuilder):
    """
    Define the builder for a single motor subsystem that provides methods to define the
    motor subsystem's states, design variables, fixed values, initial guesses, and mass
    names.

    It also provides methods to build OpenMDAO systems for the pre-mission and mission
    computations of the subsystem, to get the constraints for the subsystem, and to
    preprocess the inputs for the subsystem.

    This is meant to be computations for a single motor, so there is no notion of
    "num_motors" in this code.

    Attributes
    ----------
    name : str ('motor')
        object label

    Methods
    -------
    __init__(self, name='motor'):
        Initializes the MotorBuilder object with a given name.
    get_states(self) -> dict:
        Returns a dictionary of the subsystem's states, where the keys are the names of
        the state variables, and the values are dictionaries that contain the units for
        the state variable and any additional keyword arguments required by OpenMDAO for
        the state variable.
    get_linked_variables(self) -> list:
        Links voltage input from the battery subsystem
    build_pre_mission(self) -> openmdao.core.System:
        Builds an OpenMDAO system for the pre-mission computations of the subsystem.
    build_mission(self, num_nodes, aviary_inputs) -> openmdao.core.System:
        Builds an OpenMDAO system for the mission computations of the subsystem.
    get_constraints(self) -> dict:
        Returns a dictionary of constraints for the motor subsystem, where the keys are
        the names of the variables to be constrained, and the values are dictionaries
        that contain the lower and upper bounds for the constraint and any additional
        keyword arguments accepted by Dymos for the constraint.
    get_design_vars(self) -> dict:
        Returns a dictionary of design variables for the motor subsystem, where the keys
        are the names of the design variables, and the values are dictionaries that
        contain the units for the design variable, the lower and upper bounds for the
        design variable, and any additional keyword arguments required by OpenMDAO for
        the design variable.
    get_parameters(self) -> dict:
        Returns a dictionary of fixed values for the motor subsystem, where the keys are
        the names of the fixed values, and the values are dictionaries that contain the
        fixed value for the variable, the units for the variable, and any additional
        keyword arguments required by OpenMDAO for the variable.
    get_initial_guesses(self) -> dict:
        Returns a dictionary of initial guesses for the motor subsystem, where the keys
        are the names of the initial guesses, and the values are dictionaries that
        contain the initial guess value, the type of variable (state or control), and any
        additional keyword arguments required by OpenMDAO for the variable.
    get_mass_names(self) -> list:
        Returns a list of names for the motor subsystem mass.
    preprocess_inputs(self, aviary_inputs) -> aviary_inputs:
        No preprocessing needed for the motor subsystem.
    """

    _default_name = 'motor'

    def build_pre_mission(self, aviary_inputs, subsystem_options=None):
        return MotorPreMission()

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        return MotorMission(num_nodes=num_nodes)

    # def get_constraints(self, aviary_inputs=None, user_options=None, subsystem_options=None):
    #     if self.include_constraints:
    #         constraints = {
    #             Dynamic.Mission.Motor.TORQUE_CON: {'upper': 0.0, 'type': 'path'}
    #         }
    #     else:
    #         constraints = {}

    #     return constraints

    # def get_design_vars(self, aviary_inputs=None):
    #     DVs = {
    #         Aircraft.Engine.SCALE_FACTOR: {
    #             'units': 'unitless',
    #             'lower': 0.001,
    #             'upper': None,
    #         },
    #     }

    #     return DVs

    # def get_controls(self, aviary_inputs=None, user_options=None, subsystem_options=None):
    # controls_dict = {}
    # if aviary_inputs is not None:
    #     if Aircraft.Engine.FIXED_RPM not in aviary_inputs:
    #         if Aircraft.Engine.RPM_DESIGN in aviary_inputs:
    #             rpm_limit = aviary_inputs.get_val(Aircraft.Engine.RPM_DESIGN, 'rpm')[0]
    #         else:
    #             rpm_limit = 6000
    #         controls_dict = {
    #             Dynamic.Vehicle.Propulsion.RPM: {
    #                 'units': 'rpm',
    #                 'lower': 1.0,
    #                 'upper': rpm_limit,
    #                 'control_type': 'polynomial',
    #                 'order': 3,
    #                 'opt': True,
    #             },
    #         }

    # return controls_dict

    def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        params = {
            Aircraft.Engine.SCALE_FACTOR: {
                'val': 1.0,
                'units': 'unitless',
                'static_target': True,
            }
        }
        return params

    # def get_initial_guesses(self, aviary_inputs=None, user_options=None, subsystem_options=None):
    #     initial_guess_dict = {}
    #     if aviary_inputs is not None:
    #         if Aircraft.Engine.FIXED_RPM not in aviary_inputs:
    #             if Aircraft.Engine.RPM_DESIGN in aviary_inputs:
    #                 rpm_guess = aviary_inputs.get_val(Aircraft.Engine.RPM_DESIGN, 'rpm')[0]
    #             else:
    #                 rpm_guess = 6000
    #             initial_guess_dict = {
    #                 f'{Dynamic.Vehicle.Propulsion.RPM}_control': {
    #                     'units': 'rpm',
    #                     'type': 'control',
    #                     'val': rpm_guess,
    #                 },
    #             }

    #     return initial_guess_dict

    def get_mass_names(self, aviary_inputs=None):
        """
        Return a list of names for the motor subsystem.

        Returns
        -------
        mass_names : list
            A list of names for the motor subsystem.
        """
        return [Aircraft.Engine.Motor.MASS]

    def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        """
        Return a list of output names for the motor subsystem.

        Returns
        -------
        outputs : list
            A list of variable names for the motor subsystem.
        """
        return [
            # Dynamic.Vehicle.Propulsion.TORQUE,
            # Dynamic.Vehicle.Propulsion.SHAFT_POWER,
            # Dynamic.Vehicle.Propulsion.SHAFT_POWER_MAX,
            # Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN,
        ]
