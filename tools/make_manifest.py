"""Writes properties.jsonl and MANIFEST.json from the table below; a property is claimed when checks/<id>.py exists."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], level=level))


DIFF = ('Runtime differential monitor: held on every generated case observed; trusts the committed reference copy of the '
        'pinned release (with its repaired defects) where no independent formula is monitored.')

# ---------------------------------------------------------------- data layer
prop('D01', 'Value containers are exact, unit-aware and independent maps',
     'For any sequence of operations on a value container (set, get in any units, get item, copy, delete, update, iterate, compare), what is read is exactly what was last written, converted to the units asked for, and in the order written. '
     'A copy or an update never shares container state with its source (a deep copy shares not even the values), a failed operation (unknown name, incompatible units) raises and leaves the container as it was, and two containers are equal exactly when they hold the same items.',
     ['histories', 'inputs'], 'all sequences of container operations over all names, values of every supported kind and units',
     'Tests call each operation once on hand-picked values; aliasing and partial updates only show in sequences of operations.',
     ['aviary/utils/named_values.py', 'aviary/utils/aviary_values.py'],
     [('NamedValues storage and conversion', 'aviary/utils/named_values.py'), ('AviaryValues.set_val', 'aviary/utils/aviary_values.py')],
     'stateful random operation sequences checked step by step against an independent container model',
     'Every step of every generated history is judged by an independent model of the container; histories are random, not exhaustive.')
prop('D02', 'Inputs are stored only with the type and units their metadata allows',
     'Setting an Aviary variable succeeds exactly when the value (scalar, list, array or text) is of a type its metadata declares and the units are compatible with the declared ones, and then stores that value: enumerations become members, numbers keep their numerical value, multi-value variables accept lists. '
     'Anything else raises an error and stores nothing.',
     ['inputs', 'configurations'], 'every variable of the metadata (core and custom) and every kind of value and units',
     'Tests try a handful of variables; the rule quantifies over more than 500 variables times kinds of values and units.',
     ['aviary/utils/aviary_values.py', 'aviary/variable_info/variable_meta_data.py', 'aviary/utils/utils.py'],
     [('AviaryValues._check_type/_check_units', 'aviary/utils/aviary_values.py'), ('enum_setter, check_type, cast_type', 'aviary/utils/utils.py')],
     'online validation monitor over generated (variable, value, units) calls with an independent acceptance rule',
     'Independent acceptance rule from the metadata plus the pinned reference; every core variable is tried each run, values are sampled.')
prop('D03', 'A vehicle input file means what it says',
     'Reading a vehicle definition file yields, for every variable it names, the last value stated for it (text, number, boolean, list or enumeration as its metadata says) in the stated units, and nothing else besides documented defaults; initial guesses are kept apart. '
     'Comments, blank lines and spacing never matter, a line that cannot be honoured (unknown name, bad units) raises or warns as documented instead of storing something else, and saving what was read to a file and reading it again gives the same values.',
     ['inputs'], 'all input files: any subset and order of variables, values, units, comments, spacing and shipped aircraft files',
     'Tests read the shipped aircraft and one synthetic file.',
     ['aviary/utils/process_input_decks.py', 'aviary/utils/functions.py', 'aviary/utils/aviary_inputs_to_csv.py'],
     [('create_vehicle, parse_inputs, update_GASP_options, initialization_guessing', 'aviary/utils/process_input_decks.py'), ('convert_strings_to_data', 'aviary/utils/functions.py')],
     'generated input files read by the real parser; independent parser model plus differential reference as oracle',
     DIFF)
prop('D04', 'Data tables survive writing and reading, in any layout',
     'A table written to a data file and read back holds the same columns, values, units and comments; column names are matched through the given aliases without regard to case or underscores, reading with defaults and metadata honours them, and a missing required column, unknown units or ragged file is reported. '
     'The arguments passed in are never modified.',
     ['inputs', 'histories'], 'all tables: shapes, values, units, comments, aliases, spacing, defaults and metadata',
     'Tests read a few fixed files.',
     ['aviary/utils/csv_data_file.py'],
     [('read_data_file, write_data_file', 'aviary/utils/csv_data_file.py')],
     'write/read round trips of generated tables with a conservation monitor, differential reference for irregular files',
     DIFF)
prop('D05', 'Merging metadata and hierarchies keeps every definition or reports a conflict',
     'Adding, updating or merging variable metadata and merging variable hierarchies yields exactly the union of the definitions; two different definitions of one variable raise an error rather than one silently winning, and lookups after a merge return what the contributing definition said. '
     'Merging never changes the metadata dictionaries given to it, and the core metadata itself is consistent: every variable in the hierarchy has one entry with a default that fits its own type and units.',
     ['inputs', 'histories'], 'all families of metadata dictionaries and hierarchies with overlapping and conflicting entries',
     'Tests merge two or three small examples.',
     ['aviary/utils/merge_variable_metadata.py', 'aviary/utils/merge_hierarchies.py', 'aviary/utils/compare_hierarchies.py', 'aviary/utils/develop_metadata.py', 'aviary/variable_info/variables.py'],
     [('merge_meta_data', 'aviary/utils/merge_variable_metadata.py'), ('merge_hierarchies', 'aviary/utils/merge_hierarchies.py'), ('add_meta_data/update_meta_data', 'aviary/utils/develop_metadata.py')],
     'generated families of metadata and hierarchies, union/conflict oracle on the real merge functions',
     'Independent union and conflict model; families are random.')
prop('D06', 'Preprocessing completes payload, crew and option data consistently',
     'For any subset of given passenger, crew, cargo and mass options, preprocessing fills in the missing ones so that class counts add up to totals, as-flown and design counts stand in for each other where one is missing, crew follow the seating rules and per-passenger masses follow what was given, without changing a value that was given consistently. '
     'Inconsistent combinations raise, an option for which nothing else applies ends with its documented default, and preprocessing twice changes nothing further.',
     ['inputs', 'histories'], 'all combinations of given and missing passenger, crew, payload and option values, both mass methods',
     'Tests cover about a dozen hand-written combinations out of an exponential number.',
     ['aviary/utils/preprocessors.py'],
     [('preprocess_options, preprocess_crewpayload', 'aviary/utils/preprocessors.py')],
     'generated combinations preprocessed by the real code; consistency invariants monitored, differential reference',
     DIFF)
prop('D07', 'Propulsion preprocessing gives every engine its own data',
     'With any number of engine types, each engine-dependent option ends as one entry per engine type in the order the engines are given, taken from that engine\'s own data if it has it and otherwise from the aircraft\'s, then the default. '
     'Engine counts, mount locations and totals agree with each other.',
     ['inputs', 'configurations'], 'all families of engine models with scalar, per-type and missing data',
     'Tests cover a few fixed two-engine cases.',
     ['aviary/utils/preprocessors.py', 'aviary/subsystems/propulsion/utils.py', 'aviary/subsystems/propulsion/engine_model.py'],
     [('preprocess_propulsion', 'aviary/utils/preprocessors.py'), ('build_engine_deck', 'aviary/subsystems/propulsion/utils.py')],
     'generated multi-engine vehicles preprocessed by the real code; per-engine invariants monitored, differential reference',
     DIFF)
prop('D08', 'Converting legacy data files preserves the data',
     'Converting FLOPS, GASP and LEAPS-style aircraft, engine, aero and propeller files yields Aviary files that state the same quantities, with the documented name and unit mapping, every table row kept with its own independent values, and whatever cannot be mapped kept as unconverted. '
     'The result is readable by the Aviary readers and does not depend on the layout (comments, order, spacing) of the legacy file.',
     ['inputs'], 'all legacy files of the supported formats with varied content and layout',
     'Tests convert one sample of each format and compare with a stored file.',
     ['aviary/utils/fortran_to_aviary.py', 'aviary/utils/engine_deck_conversion.py', 'aviary/utils/aero_table_conversion.py', 'aviary/utils/propeller_map_conversion.py', 'aviary/utils/legacy_code_data'],
     [('fortran_to_aviary', 'aviary/utils/fortran_to_aviary.py'), ('convert_engine_deck', 'aviary/utils/engine_deck_conversion.py'), ('convert_aero_table', 'aviary/utils/aero_table_conversion.py'), ('convert_propeller_map', 'aviary/utils/propeller_map_conversion.py')],
     'perturbed legacy files converted by the real tools, differential reference and row-conservation monitor',
     DIFF)
# ---------------------------------------------------------------- physics components
prop('P01', 'Supplied derivatives are the derivatives of what is computed',
     'For every analysis component, at any input in its domain, under any supported options and array sizes, and whatever was evaluated or linearized before, the partial derivatives it supplies to the optimizer are the derivatives of the outputs it computes. '
     'A dependency it does not declare is one that does not exist.',
     ['inputs', 'configurations', 'histories'], 'all components, options, node counts and differentiable input points',
     'Tests check partials at the default point of one or two configurations; scaler factors equal to 1 and undistributed engines hide wrong terms.',
     ['aviary/subsystems', 'aviary/mission', 'aviary/utils/math.py', 'aviary/models'],
     [('setup_partials/compute_partials of every component', 'aviary/subsystems'), ('declare_coloring and complex-step components', 'aviary')],
     'derivative monitor: real components evaluated at random points, supplied Jacobian vs settled difference quotients',
     'Every component class of the package is driven in many recorded and mutated configurations; agreement to 1e-4 of the settled quotient; discontinuities and unsettled points are not judged.')
prop('P02', 'Trajectory nodes are computed independently and equivariantly',
     'In every vectorized component each trajectory node\'s outputs depend on that node\'s inputs only (except in components whose purpose is to couple nodes, such as integrals over the mission), so evaluating a point alone, repeated, or in another order gives the same numbers.',
     ['inputs', 'configurations'], 'all vectorized components, node counts, permutations of nodes and input points',
     'Tests evaluate fixed arrays whose nodes are rarely permuted or split.',
     ['aviary/mission', 'aviary/subsystems/aerodynamics', 'aviary/subsystems/propulsion', 'aviary/subsystems/atmosphere'],
     [('vectorized compute methods', 'aviary')],
     'metamorphic monitor: permute, split and repeat nodes of the real components and compare outputs node by node',
     'Components that couple nodes in the pinned release are recognized from the reference and left out of the node-wise judgement.')
prop('P03', 'Evaluating a component leaves no trace',
     'A component\'s outputs and derivatives are a function of its current inputs and options only: not of the evaluations or linearizations before, of other instances or problems in the process, and it never changes its inputs.',
     ['histories', 'inputs'], 'all components and all sequences of evaluations and linearizations',
     'Tests run each component once from a fresh state.',
     ['aviary/subsystems', 'aviary/mission'],
     [('compute/compute_partials bodies and module state', 'aviary')],
     'history monitor: the same points visited along different evaluation histories and instances must give identical results',
     'Bitwise or 1e-12 agreement on every visited point; histories are random.')
prop('P04', 'Mass estimates follow the published equations',
     'For any valid inputs and options, every component mass and mass roll-up equals what the implemented FLOPS or GASP weight equations give: units, exponents, option branches, scalers, engine-type vectors and roll-ups included.',
     ['inputs', 'configurations'], 'all mass components, branches and inputs',
     'Tests compare stored numbers for a few aircraft, so a branch no aircraft uses or a factor that is 1 in all of them is unseen.',
     ['aviary/subsystems/mass'],
     [('FLOPS and GASP mass components', 'aviary/subsystems/mass')],
     'runtime differential monitor of real components against the committed reference model on generated inputs', DIFF)
prop('P05', 'Geometry follows the published equations',
     'For any valid inputs and options, the wing, fuselage, tail, nacelle, cabin and blended-wing-body geometry equals what the implemented FLOPS and GASP geometry equations give in every branch.',
     ['inputs', 'configurations'], 'all geometry components, branches and inputs',
     'Tests compare stored numbers for a few aircraft.',
     ['aviary/subsystems/geometry'], [('FLOPS and GASP geometry components', 'aviary/subsystems/geometry')],
     'runtime differential monitor of real components against the committed reference model on generated inputs', DIFF)
prop('P06', 'Aerodynamic coefficients and forces follow the published equations',
     'For any valid flight condition, geometry and options, lift, drag, angle of attack, drag build-up, ground effect, flap and tabular aerodynamics equal what the implemented methods give, in every method and branch.',
     ['inputs', 'configurations'], 'all aerodynamic components, methods, branches and flight conditions',
     'Tests compare stored numbers at a few conditions.',
     ['aviary/subsystems/aerodynamics'], [('FLOPS and GASP aerodynamics', 'aviary/subsystems/aerodynamics')],
     'runtime differential monitor of real components against the committed reference model on generated inputs', DIFF)
prop('P07', 'Propulsion and energy models follow their published equations',
     'For any valid inputs and options, engine scaling and sizing, throttle allocation, motor, gearbox, propeller, turboprop, battery and fuel summation models compute what their implemented equations and maps give, per engine type and in total.',
     ['inputs', 'configurations'], 'all propulsion and energy components, branches and inputs',
     'Tests compare stored numbers at a few conditions.',
     ['aviary/subsystems/propulsion', 'aviary/subsystems/energy'], [('propulsion and energy components', 'aviary/subsystems')],
     'runtime differential monitor of real components against the committed reference model on generated inputs', DIFF)
prop('P08', 'Equations of motion and mission components follow the flight mechanics',
     'For any flight condition and options, the equations of motion, specific energy and excess power, ground roll, rotation, flare, takeoff and landing, range, residual and unit-bearing mission quantities equal what the implemented flight mechanics give in every phase type.',
     ['inputs', 'configurations'], 'all mission, performance and example-model components and inputs',
     'Tests compare stored numbers at a few conditions.',
     ['aviary/mission', 'aviary/subsystems/performance', 'aviary/models'], [('equations of motion and mission components', 'aviary/mission')],
     'runtime differential monitor of real components against the committed reference model on generated inputs', DIFF)
prop('P09', 'Atmosphere and flight conditions are the standard ones and consistent',
     'At any altitude in range and any speed, density, temperature, pressure, speed of sound and viscosity are those of the chosen standard atmosphere and obey the gas law, and airspeed, equivalent airspeed, Mach number and dynamic pressure given from any one of them agree with each other.',
     ['inputs', 'configurations'], 'all altitudes, atmosphere options, speeds and speed types',
     'Tests compare a coarse grid of altitudes with loose tolerances.',
     ['aviary/subsystems/atmosphere'], [('AtmosphereComp tables', 'aviary/subsystems/atmosphere/atmosphere.py'), ('FlightConditions', 'aviary/subsystems/atmosphere/flight_conditions.py')],
     'physics oracle (independent US1976 layer formulas, gas law, speed relations) and reference on generated conditions',
     'Independent standard-atmosphere formula at 1e-3 and gas-law residuals, plus the pinned reference at 1e-6.')
prop('P10', 'Lookup tables, sorting and smooth functions return what the data say',
     'An interpolator built from any tabulated data (structured or not, columns in any order, any units) returns the table value at every table point, lies between neighbours for linear lookups, and binds every column to its own name and units. '
     'The smooth max, min, step, and sigmoid functions equal their closed forms away from the transition, stay within their documented bounds, and have the derivatives they claim.',
     ['inputs', 'configurations'], 'all tables and query points; all arguments of the smooth functions',
     'Tests use a few tables and points.',
     ['aviary/utils/data_interpolator_builder.py', 'aviary/utils/math.py'],
     [('build_data_interpolator', 'aviary/utils/data_interpolator_builder.py'), ('smooth_max, sigmoidX and friends', 'aviary/utils/math.py')],
     'generated tables and arguments; interpolation/identity oracles on the real builders and functions',
     'Independent multilinear and closed-form oracles; samples, not exhaustive.')
# ---------------------------------------------------------------- whole system
prop('M01', 'Masses add up',
     'In every aircraft and mission, reported mass totals are the sum of their parts: structure, propulsion, systems and equipment, empty, operating, zero-fuel, payload, fuel and gross mass close exactly for both mass methods and any combination of inputs, scalers and overrides. '
     'Scaling one component mass moves the totals that contain it by exactly that amount.',
     ['inputs', 'configurations'], 'all aircraft definitions (both methods, conventional and blended wing body, any overrides)',
     'Tests compare totals for the shipped aircraft only.',
     ['aviary/subsystems/mass', 'aviary/subsystems/premission.py', 'aviary/core/aviary_group.py'],
     [('mass summation components', 'aviary/subsystems/mass/flops_based/mass_summation.py'), ('EquipMassSum, StructMass, fuel', 'aviary/subsystems/mass/gasp_based')],
     'conservation monitor on the outputs of real pre-mission models of generated aircraft',
     'Independent sums over the reported parts at 1e-9 relative, plus the pinned reference; aircraft are random perturbations of the shipped ones.')
prop('M02', 'A value given for a computed quantity overrides it everywhere',
     'When the user gives a value for a variable that Aviary\'s core pre-mission subsystems (mass, geometry, aerodynamics; not propulsion sizing or the pre-mission fuel balance) would compute, that value (in the stated units) is what every part of the model uses and reports, whichever method, order or number of overrides; the computed one is kept aside and nothing else changes except through the dependence on it. '
     'Variables not given are still computed.',
     ['inputs', 'configurations'], 'every overridable pre-mission output, any set of overrides, values and units',
     'Tests override a handful of variables.',
     ['aviary/variable_info/functions.py', 'aviary/subsystems/premission.py', 'aviary/core/static_group.py'],
     [('override_aviary_vars', 'aviary/variable_info/functions.py'), ('CorePreMission.configure', 'aviary/subsystems/premission.py')],
     'override monitor on real pre-mission models: the given value is read at every consumer, others unchanged',
     'Every observed override is traced to all connected inputs in the built model; sets of overrides are random.')
prop('M03', 'Engine decks reproduce their data, scaled and limited as asked',
     'At every point of an engine deck the engine model returns the deck\'s thrust, fuel flow and other outputs scaled by the scale factor and fuel-flow factors, interpolates only between the deck\'s own points, generates idle data and applies the geopotential and flight-condition options as documented, and orders data independently of the file\'s row order. '
     'Total propulsion is the sum over engine types times their counts.',
     ['inputs', 'configurations'], 'all decks, row orders, options, scale factors and query points; any number of engine types',
     'Tests query fixed points of the shipped decks with a few options.',
     ['aviary/subsystems/propulsion/engine_deck.py', 'aviary/subsystems/propulsion/propulsion_mission.py', 'aviary/subsystems/propulsion/engine_scaling.py', 'aviary/subsystems/propulsion/throttle_allocation.py'],
     [('EngineDeck', 'aviary/subsystems/propulsion/engine_deck.py'), ('PropulsionMission', 'aviary/subsystems/propulsion/propulsion_mission.py')],
     'generated engine decks run through the real engine model; deck-point and summation oracles, differential reference', DIFF)
prop('M04', 'A mission is one continuous flight and its fuel is accounted for',
     'For any mission definition, consecutive phases start where the one before ended in time, mass, distance, altitude and speed (by direct connection or by a constraint the optimizer must satisfy), reserve phases start from the end of the regular mission, and the reported fuel burned, reserve fuel, total fuel and range are the differences the trajectory shows. '
     'Nothing that the mission definition does not ask for is fixed or left free.',
     ['inputs', 'configurations'], 'all sequences of phases, reserve phases, transcriptions, linking options and mission methods',
     'Tests run a few fixed missions.',
     ['aviary/core/aviary_group.py', 'aviary/mission/energy_state_problem_configurator.py', 'aviary/mission/two_dof_problem_configurator.py', 'aviary/mission/solved_two_dof_problem_configurator.py', 'aviary/mission/problem_configurator.py'],
     [('link_phases', 'aviary/core/aviary_group.py'), ('configurator link_phases_helper_*', 'aviary/mission'), ('add_post_mission_systems', 'aviary/core/aviary_group.py')],
     'linkage and fuel-ledger monitor over real built and run missions generated at random, differential reference', DIFF)
prop('M05', 'The optimizer is given exactly the problem the user posed',
     'For any problem type, objective, aircraft and mission definition, the design variables, constraints and objectives handed to the optimizer, with their bounds, scaling and units, are those the definition implies: sizing frees gross mass and requires range and mass to close, alternate missions fix the design, user constraints and design variables are kept as given.',
     ['inputs', 'configurations'], 'all problem types, objectives, missions and user-added design variables and constraints',
     'Tests check that a few fixed problems solve.',
     ['aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py', 'aviary/mission/flight_phase_builder.py', 'aviary/mission/energy_state_problem_configurator.py'],
     [('add_design_variables, add_objective', 'aviary/core/aviary_problem.py'), ('phase builder bounds', 'aviary/mission/flight_phase_builder.py')],
     'monitor of the driver\'s real design variables, constraints and objectives on generated problems', DIFF)
prop('M06', 'Every phase option does what it says and nothing else',
     'Each option of a flight phase (numbers of segments and order, initial and final values and bounds in any units, optimize flags, references, polynomial order, throttle rules, time bounds and targets, constraints) appears in the trajectory problem as documented, for its own phase only. '
     'Options left out take the documented default, and unknown or contradictory ones raise.',
     ['inputs', 'configurations'], 'all combinations of phase options over all phase types',
     'Tests use a few option combinations.',
     ['aviary/mission/flight_phase_builder.py', 'aviary/mission/phase_builder.py', 'aviary/mission/two_dof/phases', 'aviary/mission/solved_two_dof/phases', 'aviary/utils/aviary_options_dict.py'],
     [('FlightPhaseBase.build_phase', 'aviary/mission/flight_phase_builder.py'), ('PhaseBuilder state/control/time options', 'aviary/mission/phase_builder.py'), ('AviaryOptionsDictionary', 'aviary/utils/aviary_options_dict.py')],
     'option monitor: real phases built from generated options and read back through the trajectory, differential reference', DIFF)
prop('M07', 'Saved results reload to the same aircraft; off-design flies that aircraft',
     'Saving a sized problem and reloading it reproduces every input and the sized values, units included, so that the reloaded problem computes the same results; running off-design and payload-range missions uses the sized aircraft with only the requested changes, and none of these operations changes the problem they start from.',
     ['histories', 'inputs'], 'all sized problems and sequences of save, reload, off-design and payload-range runs',
     'Tests reload one or two problems.',
     ['aviary/core/aviary_problem.py', 'aviary/utils/aviary_inputs_to_csv.py', 'aviary/interface/utils.py'],
     [('save_results, load, reload_aviary_problem', 'aviary/core/aviary_problem.py'), ('run_off_design_mission, run_payload_range', 'aviary/core/aviary_problem.py')],
     'save/reload/off-design histories on real problems; identity and non-interference monitors, differential reference', DIFF)
prop('M08', 'Results depend only on the inputs of the problem itself',
     'Building and running the same problem twice, after or between other problems in the same process, at any verbosity, from file or from data, gives identical results; nothing the caller passed in is modified and no global default changes.',
     ['histories', 'schedules'], 'all sequences and interleavings of problems in one process, verbosity and ways of giving the inputs',
     'Tests run each problem in its own process or fixture.',
     ['aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py', 'aviary/models/missions', 'aviary/variable_info'],
     [('deepcopy of phase_info and inputs', 'aviary/core/aviary_group.py'), ('module-level metadata and default missions', 'aviary')],
     'interleaved problem histories with before/after snapshots of arguments and global state, identical-result monitor',
     'Bitwise comparison of results along histories; histories are random.')
prop('M09', 'Results do not depend on the units inputs are given in',
     'Giving any input of the aircraft, phases, guesses or engine in other compatible units leaves every physical result unchanged.',
     ['inputs', 'configurations'], 'all inputs with units and all compatible units',
     'Tests give inputs in their default units almost everywhere.',
     ['aviary/core/aviary_group.py', 'aviary/core/aviary_problem.py', 'aviary/utils/aviary_values.py', 'aviary/mission'],
     [('unit conversion at every hand-over', 'aviary')],
     'metamorphic monitor: the same real problem with inputs re-expressed in other units must observe the same values',
     'Round-off tolerance 1e-7; sets of re-expressed inputs are random.')
prop('M10', 'External subsystems are honoured exactly as they declare themselves',
     'Every pre-mission, mission and post-mission model, state, control, parameter, constraint, design variable, initial guess, bus variable and output an external subsystem declares is present in the problem, in the phases that use it, with the declared units, bounds and values, connected to what it names, and nothing else of the problem changes. '
     'Several subsystems do not disturb one another.',
     ['configurations', 'inputs'], 'all external subsystem declarations, number and order of subsystems and phases using them',
     'Tests use a few example subsystems.',
     ['aviary/subsystems/subsystem_builder.py', 'aviary/core/aviary_group.py', 'aviary/mission/phase_builder.py', 'aviary/mission/base_ode.py', 'aviary/subsystems/premission.py'],
     [('SubsystemBuilder interface', 'aviary/subsystems/subsystem_builder.py'), ('add_external subsystems in phases', 'aviary/mission/phase_builder.py'), ('bus variables', 'aviary/core/aviary_group.py')],
     'generated external subsystems in real problems; declaration monitor over the built model', DIFF)
prop('M11', 'Initial guesses reach the trajectory they were given for',
     'Every initial guess given for a phase (time, states, controls; scalar, ends or profile; in any units) is what the optimization starts from in that phase, sampled at its nodes, and guesses not given are derived from the mission as documented.',
     ['inputs', 'configurations'], 'all missions, phases, guess kinds and units',
     'Tests check that a few missions converge, which tolerates wrong guesses.',
     ['aviary/core/aviary_group.py', 'aviary/mission/energy_state_problem_configurator.py', 'aviary/mission/two_dof_problem_configurator.py', 'aviary/mission/initial_guess_builders.py'],
     [('set_initial_guesses, set_phase_initial_guesses', 'aviary'), ('InitialGuess builders', 'aviary/mission/initial_guess_builders.py')],
     'guess monitor: trajectory values of real set-up problems vs an independent resampling of the given guesses', DIFF)
prop('M12', 'Reports and exported tables state what the problem holds',
     'Every number a report, timeseries export or input listing states equals the value in the problem it was made from in the units it names, for all phases and variables it lists.',
     ['inputs', 'configurations'], 'all problems, missions and reports',
     'Tests check that report files exist.',
     ['aviary/interface/reports.py', 'aviary/interface/utils.py', 'aviary/core/aviary_problem.py', 'aviary/subsystems/propulsion/propulsion_builder.py'],
     [('mission, input and subsystem reports', 'aviary/interface/reports.py'), ('timeseries_csv', 'aviary/interface/reports.py')],
     'reports of real problems parsed and compared with the values the problem holds', 
     'Independent parser of the report files; generated problems.')
prop('M13', 'One call or one command does what the steps do',
     'run_aviary, the command line (aviary run_mission) and run_aviary_problem build and run exactly the problem that the documented sequence of steps builds from the same files, objects and arguments: same inputs, values, optimization problem and driver. '
     'Every argument (optimizer, iteration limit, objective, verbosity, phase information file or modifier, external subsystems, restart file, plotting, whether to optimize) takes effect as documented and defaults where it is left out.',
     ['inputs', 'configurations'], 'all vehicles, missions and combinations of arguments of the one-call interfaces and the command line',
     'Tests check return codes of a few commands and run_aviary on a few fixed arguments; the arguments combine freely.',
     ['aviary/interface/run_aviary.py', 'aviary/interface/cmd_entry_points.py', 'aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py'],
     [('run_aviary, run_aviary_cmd', 'aviary/interface/run_aviary.py'), ('add_driver, run_aviary_problem, build_model', 'aviary/core/aviary_problem.py')],
     'metamorphic monitor: the same generated problem through the one-call interface and by steps, the run handed to the optimizer recorded, everything compared',
     'Needs no reference; pyOptSparse is not installed, so the settings it is given are recorded by a stand-in driver.')
prop('M14', 'A detailed takeoff or landing is the procedure its phases define',
     'For every selection of detailed takeoff or landing phases, every option, guess, unit, airport, obstacle and friction, the trajectory the builders make is the defined procedure: each limit bounds and scales its own variable, '
     'the phases that follow each other meet in time, place, speed, mass and attitude, aborted and continued takeoff end at the same place, microphones and obstacles are passed at the given points above the airport, the guesses are the starting values, '
     'and on the runway the vehicle accelerates as thrust, drag and the friction given for that phase (rolling or braking) say.',
     ['inputs', 'configurations'], 'all detailed takeoff and landing definitions: phases flown, options, guesses, units, aerodynamic tables, airport and runway values',
     'No stable test builds a detailed takeoff or landing; the benchmarks need an optimizer that may not be there and use one definition each.',
     ['aviary/mission/energy_state/phases/detailed_takeoff_phases.py', 'aviary/mission/energy_state/phases/detailed_landing_phases.py', 'aviary/mission/energy_state/ode/takeoff_ode.py', 'aviary/mission/energy_state/ode/landing_ode.py', 'aviary/mission/phase_builder.py'],
     [('DetailedTakeoffTrajectoryBuilder, its phase builders', 'aviary/mission/energy_state/phases/detailed_takeoff_phases.py'), ('DetailedLandingTrajectoryBuilder, its phase builders', 'aviary/mission/energy_state/phases/detailed_landing_phases.py')],
     'rule monitors on generated procedures (driver problem, linkage values, guesses, runway accelerations) and the reference for the rest of the values',
     'Trajectories are evaluated at their guesses, not optimized.')
prop('M15', 'A drawn mission profile is written as the mission it shows',
     'For every profile drawn or entered in the mission editor, in any units and with any options, the phase information file it writes can be loaded and states the mission shown: one phase per leg in order, '
     'initial and final altitude, Mach number, duration, start time and range with bounds that contain the drawn values, the orders and options chosen for each leg, and the estimated range. '
     'A saved mission opened again, edited and saved is the mission then shown; profiles that run backwards in time are refused.',
     ['histories', 'inputs'], 'all drawn profiles: points, units, options per phase, and sequences of saving, opening, adding, deleting and changing points',
     'One test builds one profile; the editor is not tested.',
     ['aviary/interface/graphical_input.py'],
     [('create_phase_info, estimate_total_range_trapezoidal', 'aviary/interface/graphical_input.py'), ('AviaryMissionEditor.save, open_phase_info, delete_point', 'aviary/interface/graphical_input.py')],
     'written files loaded and compared with the profile drawn; random edit histories of the editor with a stand-in window',
     'The window itself (drawing, mouse) is replaced by a stand-in: no display is needed or tested.')
prop('M16', 'The dashboard shows what was recorded',
     'For every recorded problem, whatever its variables, phases, units and optimization, the dashboard shows that problem: the table of variables lists every output once with its own value, units and metadata, '
     'the optimization history has one row per iteration with the value (and sign) each objective, constraint and design variable had, the mission plot offers every timeseries variable and plots for each phase the values of that phase in the units of its axis, '
     'and the payload-range chart, the tables, reports and run status are those of their files.',
     ['inputs', 'configurations'], 'all recorded problems: variable names, values and units, phases and their outputs, optimizer iterations, report files',
     'The dashboard tests start it and look whether tabs appear; the values shown are not compared.',
     ['aviary/visualization/dashboard.py'],
     [('create_aviary_variables_table_data_nested, convert_driver_case_recorder_file_to_df', 'aviary/visualization/dashboard.py'), ('_create_interactive_xy_plot_mission_variables, create_payload_range_frame', 'aviary/visualization/dashboard.py')],
     'generated problems recorded by the real recorder, with the iterations logged by a second recorder; tables and plot data compared with both',
     'Plots are read as data (sources, axes, legends), not as pixels. The 3D view of the aircraft is not judged (broken with this numpy).')

props, checks, na = [], [], []
for p in P:
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}
    if p['observe']:
        d['anchors']['observe_at'] = p['observe']
    props.append(d)
    if (HERE / 'checks' / f'{p["id"].lower()}.py').exists():
        checks.append({'property': p['id'], 'quick_cmd': f'./check {p["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p["id"]}',
                       'technique': 'runtime monitoring: ' + p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'its monitor is not built yet'})
(HERE / 'properties.jsonl').write_text(''.join(json.dumps(d) + '\n' for d in props))
(HERE / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks are needed in /repo: every monitor observes through the public interface of the real code. Known findings and repairs: known_findings.json.',
}, indent=1) + '\n')
print(len(props), 'properties', len(checks), 'claimed')
