import openmdao.api as om

from aviary_ref.mission.solved_two_dof.phases.groundroll_phase import (
    GroundrollPhase as GroundrollPhaseVelocityIntegrated,
)
from aviary_ref.mission.solved_two_dof.phases.solved_twodof_phase import SolvedTwoDOFPhase
from aviary_ref.mission.problem_configurator import ProblemConfiguratorBase
from aviary_ref.subsystems.propulsion.utils import build_engine_deck
from aviary_ref.utils.utils import wrapped_convert_units
from aviary_ref.variable_info.enums import LegacyCode
from aviary_ref.variable_info.variables import Aircraft, Dynamic, Mission
from aviary_ref.mission.utils import process_guess_var


class SolvedTwoDOFProblemConfigurator(ProblemConfiguratorBase):
    """The Solved 2DOF builder is used for detailed take-off and landing."""

    def initial_guesses(self, aviary_group):
        """
        Set any initial guesses for variables in the aviary problem.

        This is called at the end of AivaryProblem.load_inputs.

        Parameters
        ----------
        aviary_group : AviaryGroup
            Aviary model that owns this configurator.
        """
        # This doesn't really have much value, but is needed for initializing
        # an objective-related component that still lives in level 2.

        if 'target_range' in aviary_group.post_mission_info:
            aviary_group.target_range = wrapped_convert_units(
                aviary_group.post_mission_info['target_range'], 'NM'
            )
        else:
            aviary_group.target_range = aviary_group.aviary_inputs.get_val(
                Aircraft.Design.RANGE, units='NM'
            )

    def get_default_phase_info(self, aviary_group):
        """
        Return a default phase_info for this type or problem.

        The default phase_info is used in the level 1 and 2 interfaces when no
        phase_info is specified.

        This is called during load_inputs.

        Parameters
        ----------
        aviary_group : AviaryGroup
            Aviary model that owns this configurator.

        Returns
        -------
        AviaryValues
            General default phase_info.
        """
        raise RuntimeError('Solved 2DOF requires that a phase_info is specified.')

    def get_code_origin(self):
        """
        Return the legacy of this problem configurator.

        Returns
        -------
        LegacyCode
            Code origin enum.
        """
        return LegacyCode.FLOPS

    def add_takeoff_systems(self, aviary_group):
        """
        Adds takeoff systems to the model in aviary_group.

        Parameters
        ----------
        aviary_group : AviaryGroup
            Aviary model that owns this configurator.
        """
        pass

    def get_phase_builder(self, aviary_group, phase_name, phase_options):
        """
        Return a phase_builder for the requested phase.

        This is called from _get_phase in AviaryProblem.add_phases

        Parameters
        ----------
        aviary_group : AviaryGroup
            Aviary model that owns this configurator.
        phase_name : str
            Name of the requested phase.
        phase_options : dict
            Phase options for the requested phase.

        Returns
        -------
        PhaseBuilder
            Phase builder for requested phase.
        """
        if phase_options['user_options'].get('ground_roll') and not phase_options[
            'user_options'
        ].get('rotation'):
            phase_builder = GroundrollPhaseVelocityIntegrated
        else:
            phase_builder = SolvedTwoDOFPhase

        return phase_builder

    def set_phase_options(self, aviary_group, phase_name, phase_idx, phase, user_options, comm):
        """
        Set any necessary problem-related options on the phase.

        This is called from _get_phase in AviaryProblem.add_phases

        Parameters
        ----------
        aviary_group : AviaryGroup
            Aviary model that owns this configurator.
        phase_name : str
            Name of the requested phase.
        phase_idx : int
            Phase position in aviary_group.phases. Can be used to identify first phase.
        phase : Phase
            Instantiated phase object.
        user_options : dict
            Subdictionary "user_options" from the phase_info.
        comm : MPI.Comm or <FakeComm>
            MPI Communicator from OpenMDAO problem.
        """
        time_units = phase.time_options['units']
        initial = wrapped_convert_units(user_options['time_initial'], time_units)
        duration = wrapped_convert_units(user_options['time_duration'], time_units)
        initial_bounds = wrapped_convert_units(user_options['time_initial_bounds'], time_units)
        duration_bounds = wrapped_convert_units(user_options['time_duration_bounds'], time_units)
        initial_ref = wrapped_convert_units(user_options['time_initial_ref'], time_units)
        duration_ref = wrapped_convert_units(user_options['time_duration_ref'], time_units)

        fix_duration = duration is not None
        fix_initial = initial is not None

        if initial_ref is None:
            # Make a good guess for a reasonable initial time scaler.
            if initial_bounds[0] is not None and initial_bounds[1] != 0.0:
                # Upper bound is good for a ref.
                initial_ref = initial_bounds[1]
            else:
                initial_ref = 600.0

        if duration_ref is None:
            duration_ref = (duration_bounds[0] + duration_bounds[1]) / 2.0

        extra_options = {}
        if not fix_initial:
            extra_options['initial_bounds'] = initial_bounds

        if not (comm.size == 1 or fix_initial):
            extra_options['initial_ref'] = initial_ref

        phase.set_time_options(
            fix_initial=fix_initial,
            fix_duration=fix_duration,
            units=time_units,
            duration_bounds=duration_bounds,
            duration_ref=duration_ref,
            **extra_options,
        )

    def add_post_mission_systems(self, aviary_group):
        """
        Add any post mission systems.

        These may include any post-mission take off and landing systems.

        This is called from AviaryProblem.add_post_mission_systems

        Parameters
        ----------
        aviary_group : AviaryGroup
            Aviary model that owns this configurator.
        """
        # Add a mass equality constraint to set mission:gross_mass = initial mass state
        first_flight_phase_name = list(aviary_group.mission_info.keys())[0]
        first_flight_phase = aviary_group.traj._phases[first_flight_phase_name]
        first_flight_phase.set_state_options(
            Dynamic.Vehicle.MASS, fix_initial=False, input_initial=False
        )

        # connect summary mass to the initial guess of mass in the first phase
        eq = aviary_group.add_subsystem(
            f'link_{first_flight_phase_name}_mass',
            om.EQConstraintComp(),
            promotes_inputs=[('rhs:mass', Mission.GROSS_MASS)],
        )

        # TODO: replace hard_coded ref for this constraint.
        eq.add_eq_output('mass', eq_units='lbm', normalize=False, ref=100000.0, add_constraint=True)

        aviary_group.connect(
            f'traj.{first_flight_phase_name}.states:mass',
            f'link_{first_flight_phase_name}_mass.lhs:mass',
            src_indices=[0],
            flat_src_indices=True,
        )

    def set_phase_initial_guesses(
        self, aviary_group, phase_name, phase, guesses, target_prob, parent_prefix
    ):
        """
        Adds the initial guesses for each variable of a given phase to the problem.

        This method sets the initial guesses into the openmdao model for time, controls, states,
        and problem-specific variables for a given phase. If using the GASP model, it also handles
        some special cases that are not covered in the `phase_info` object. These include initial
        guesses for mass, time, and distance, which are determined based on the phase name and
        other mission-related variables.

        Parameters
        ----------
        aviary_group : AviaryGroup
            Aviary model that owns this configurator.
        phase_name : str
            The name of the phase for which the guesses are being added.
        phase : Phase
            The phase object for which the guesses are being added.
        guesses : dict
            A dictionary containing the initial guesses for the phase.
        target_prob : Problem
            Problem instance to apply the guesses.
        parent_prefix : str
            Location of this trajectory in the hierarchy.
        """
        control_keys = ['mach', 'altitude']

        # for the simple mission method, use the provided initial and final mach
        # and altitude values from phase_info
        initial_altitude = wrapped_convert_units(
            aviary_group.mission_info[phase_name]['user_options']['altitude_initial'], 'ft'
        )
        final_altitude = wrapped_convert_units(
            aviary_group.mission_info[phase_name]['user_options']['altitude_final'], 'ft'
        )
        initial_mach = aviary_group.mission_info[phase_name]['user_options']['mach_initial']
        final_mach = aviary_group.mission_info[phase_name]['user_options']['mach_final']

        guesses['mach'] = ([initial_mach[0], final_mach[0]], 'unitless')
        guesses['altitude'] = ([initial_altitude, final_altitude], 'ft')

        for guess_key, guess_data in guesses.items():
            val, units = guess_data

            if val[0] is None or val[1] is None:
                continue

            # Set initial guess for control variables
            if guess_key in control_keys:
                phase.set_control_val(
                    guess_key,
                    vals=process_guess_var(val, guess_key, phase),
                    units=units,
                )
