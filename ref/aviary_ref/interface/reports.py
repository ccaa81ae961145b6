import datetime
import json
import sys
import time
from pathlib import Path

import numpy as np
import pandas as pd
from openmdao.utils.mpi import MPI
from openmdao.utils.reports_system import register_report

from aviary_ref.core.aviary_problem import AviaryProblem
from aviary_ref.interface.utils import write_markdown_variable_table
from aviary_ref.utils.named_values import NamedValues
from aviary_ref.utils.utils import wrapped_convert_units
from aviary_ref.variable_info.enums import ProblemType


def register_custom_reports():
    """
    Registers Aviary reports with OpenMDAO, so they are automatically generated and
    added to the same reports folder as other default reports.
    """
    # TODO top-level aircraft report?
    # TODO add flag to skip registering reports?

    # register per-subsystem report generation
    register_report(
        name='subsystems',
        func=subsystem_report,
        desc='Generates reports for each subsystem builder in the Aviary Problem',
        class_name='AviaryProblem',
        method='run_driver',
        pre_or_post='post',
    )

    register_report(
        name='mission',
        func=mission_report,
        desc='Generates report for mission results from Aviary problem',
        class_name='AviaryProblem',
        method='run_driver',
        pre_or_post='post',
    )

    register_report(
        name='timeseries_csv',
        func=timeseries_csv,
        desc='Generates an output .csv file for variables in the timeseries of the trajectory',
        class_name='AviaryProblem',
        method='run_driver',
        pre_or_post='post',
    )

    register_report(
        name='run_status',
        func=run_status,
        desc='Generates a report on the status of the run',
        class_name='AviaryProblem',
        method='run_driver',
        pre_or_post='post',
    )

    register_report(
        name='sizing_results',
        func=sizing_results,
        desc='Generates an output file containing all variables in a completed sizing problem',
        class_name='AviaryProblem',
        method='run_driver',
        pre_or_post='post',
    )

    register_report(
        name='input_checks',
        func=input_check_report,
        desc='Generates a report on the aviary inputs',
        class_name='AviaryProblem',
        method='final_setup',
        pre_or_post='post',
    )

    register_report(
        name='overridden_variables',
        func=overridden_variables_report,
        desc='Generates a report on the overridden variables',
        class_name='AviaryProblem',
        method='final_setup',
        pre_or_post='post',
    )

    register_report(
        name='list_options',
        func=_list_options_report,
        desc='Generates a report on the Problem options',
        class_name='AviaryProblem',
        method='run_driver',
        pre_or_post='post',
    )


def run_status(prob: AviaryProblem):
    """
    Creates a JSON file that contains high level overview of the run.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem used to generate this report
    """
    if MPI and prob.comm.rank != 0:
        return

    reports_folder = Path(prob.get_reports_dir())
    report_file = reports_folder / 'status.json'

    runtime = prob.driver.result.runtime
    runtime_ms = (runtime * 1000.0) % 1000.0
    runtime_formatted = (
        f'{time.strftime("%H hours %M minutes %S seconds", time.gmtime(runtime))} '
        f'{runtime_ms:.1f} milliseconds'
    )

    t = datetime.datetime.now()
    time_stamp = t.strftime('%Y-%m-%d %H:%M:%S %Z')

    status = {}
    status['Problem'] = prob._name
    status['Script'] = sys.argv[0]
    status['Optimizer'] = prob.driver._get_name()
    status['Number of driver iterations'] = prob.driver.result.iter_count
    status['Number of model evals'] = prob.driver.result.model_evals
    status['Number of deriv evals'] = prob.driver.result.deriv_evals
    status['Wall clock run time'] = runtime_formatted
    status['Exit status'] = prob.driver.result.exit_status
    status['Report generation date and time'] = time_stamp

    with open(report_file, 'w') as f:
        json.dump(status, f, indent=1, ensure_ascii=False)
        print(file=f)  # avoid 'no newline at end of file' message


def sizing_results(prob: AviaryProblem):
    """
    Creates a JSON file that contains the variable set from a sizing problem. If the ProblemType run
    was not sizing, no file is generated.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem used to generate this report
    """
    reports_folder = Path(prob.get_reports_dir())
    report_file = reports_folder / 'sizing_results.json'

    if prob.problem_type is ProblemType.SIZING:
        prob.save_results(report_file)


def subsystem_report(prob: AviaryProblem):
    """
    Loops through all subsystem builders in the AviaryProblem calls their write_report
    method. All generated report files are placed in the "reports/subsystem_reports" folder.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem used to generate this report
    """
    reports_folder = Path(prob.get_reports_dir() / 'subsystems')
    reports_folder.mkdir(exist_ok=True)

    multi_mission = prob.problem_type is ProblemType.MULTI_MISSION
    if multi_mission:
        # See issue #1186. We need to rewrite the reports to support multimission. This may require
        # standardizing how all attributes work in AviaryProblem (things like prob.model.get_val
        # don't work with multi-mission but does for normal problems). End goal is to loop through
        # each mission and get reports for each mission. Show in dashboard in nested tabs (new
        # tab for each mission containing its own subsystems).
        # Currently only getting reports for subsystems in first mission.
        prob = model = next(iter(prob.aviary_groups_dict.values()))
    else:
        model = prob.model

    subsystems = model.subsystems  # See issue #1186. redo for multimissions

    for subsystem in subsystems:
        subsystem.report(prob, reports_folder)


def mission_report(prob: AviaryProblem, **kwargs):
    """
    Creates a basic mission summary report that is placed in the "reports" folder.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem used to generate this report
    """

    def _get_phase_value(model, traj, phase, var_name, units, indices=None):
        try:
            vals = model.get_val(
                f'{traj}.{phase}.timeseries.{var_name}',
                units=units,
                indices=indices,
                get_remote=True,
            )
        except KeyError:
            try:
                vals = model.get_val(
                    f'{traj}.{phase}.{var_name}',
                    units=units,
                    indices=indices,
                    get_remote=True,
                )
            # 2DOF breguet range cruise uses time integration to track mass
            except TypeError:
                vals = model.get_val(
                    f'{traj}.{phase}.timeseries.time',
                    units=units,
                    indices=indices,
                    get_remote=True,
                )
            except KeyError:
                vals = None

        return vals

    def _get_phase_diff(model, traj, phase, var_name, units, indices=[0, -1]):
        vals = _get_phase_value(model, traj, phase, var_name, units, indices)

        if vals is not None:
            diff = vals[-1] - vals[0]
            if isinstance(diff, np.ndarray):
                diff = diff[0]
            return diff
        else:
            return None

    reports_folder = Path(prob.get_reports_dir())
    report_file = reports_folder / 'mission_summary.md'

    multi_mission = prob.problem_type == ProblemType.MULTI_MISSION
    if multi_mission:
        models = prob.aviary_groups_dict
    else:
        models = {prob._name: prob.model}

    all_data = {}
    all_totals = {}
    for name, model in models.items():
        # read per-phase data from trajectory
        data = {}
        for idx, phase in enumerate(model.mission_info):  # See issue #1186. redo for multimissions
            # TODO for traj in trajectories, currently assuming single one named "traj"
            # TODO delta mass and fuel consumption need to be tracked separately
            fuel_burn = _get_phase_diff(model, 'traj', phase, 'mass', 'lbm', [-1, 0])
            time = _get_phase_diff(model, 'traj', phase, 'time', 'min')
            range = _get_phase_diff(model, 'traj', phase, 'distance', 'nmi')

            # get initial values, first in traj
            if idx == 0:
                initial_time = _get_phase_value(model, 'traj', phase, 'time', 'min', 0)
                initial_range = _get_phase_value(model, 'traj', phase, 'distance', 'nmi', 0)[0]

            outputs = NamedValues()
            # Fuel burn is negative of delta mass
            outputs.set_val('Fuel Burn', fuel_burn, 'lbm')
            outputs.set_val('Elapsed Time', time, 'min')
            outputs.set_val('Ground Distance', range, 'nmi')
            data[phase] = outputs

            # get final values, last in traj
            final_time = _get_phase_value(model, 'traj', phase, 'time', 'min', -1)
            final_range = _get_phase_value(model, 'traj', phase, 'distance', 'nmi', -1)[0]

            totals = NamedValues()

            if multi_mission:
                var_name = f'{name}.'
            else:
                var_name = ''

            totals.set_val(
                'Total Fuel Burn',
                prob.get_val(f'{var_name}mission:fuel_mass', units='lbm')[0],
                units='lbm',
            )

            totals.set_val(
                'Total Fuel Capacity',
                prob.get_val(f'{var_name}aircraft:fuel:max_capacity_mass', units='lbm')[0],
                units='lbm',
            )
            totals.set_val(
                'Excess Fuel Capacity',
                prob.get_val(
                    f'{var_name}mission:constraints:excess_fuel_mass_capacity', units='lbm'
                )[0],
                units='lbm',
            )
            totals.set_val('Total Time', final_time - initial_time, 'min')
            totals.set_val('Total Ground Distance', final_range - initial_range, 'nmi')

        all_data[name] = data
        all_totals[name] = totals

    if MPI and prob.comm.rank != 0:
        # All collective calls are completed. We only output on rank 0.
        return

    with open(report_file, mode='w') as f:
        for name, model in models.items():
            data = all_data[name]
            totals = all_totals[name]

            if multi_mission:
                f.write(f'\n\n\n# MULTIMISSION: {name}\n\n')

            f.write('# MISSION SUMMARY')
            write_markdown_variable_table(
                f,
                totals,
                [
                    'Total Fuel Burn',
                    'Total Fuel Capacity',
                    'Excess Fuel Capacity',
                    'Total Time',
                    'Total Ground Distance',
                ],
                {
                    'Total Fuel Burn': {'units': 'lbm'},
                    'Total Fuel Capacity': {'units': 'lbm'},
                    'Excess Fuel Capacity': {'units': 'lbm'},
                    'Total Time': {'units': 'min'},
                    'Total Ground Distance': {'units': 'nmi'},
                },
            )

            f.write('\n# MISSION SEGMENTS')
            for phase in data:
                f.write(f'\n## {phase}')
                write_markdown_variable_table(
                    f,
                    data[phase],
                    ['Fuel Burn', 'Elapsed Time', 'Ground Distance'],
                    {
                        'Fuel Burn': {'units': 'lbm'},
                        'Elapsed Time': {'units': 'min'},
                        'Ground Distance': {'units': 'nmi'},
                    },
                )


def input_check_report(prob: AviaryProblem, **kwargs):
    """
    Creates a basic input checking report.

    This report informs the user which aviary inputs were not specified by the user.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem used to generate this report
    """
    reports_folder = Path(prob.get_reports_dir())
    report_file = reports_folder / 'input_checks.md'

    multi_mission = prob.problem_type == ProblemType.MULTI_MISSION
    if multi_mission:
        models = prob.aviary_groups_dict
    else:
        models = {prob._name: prob.model}

    # a change in OpenMDAO 3.38.1-dev adds a resolver in place of the prom2abs/abs2prom attributes
    try:
        resolver = prob.model._resolver

        def prom2abs(prom_name):
            return resolver.absnames(prom_name, 'input')

        def abs2prom(abs_name):
            return resolver.abs2prom(abs_name, 'input')

    except AttributeError:

        def prom2abs(prom_name):
            return prob.model._var_allprocs_prom2abs_list['input'][prom_name]

        def abs2prom(abs_name):
            return prob.model._var_allprocs_abs2prom['input'][abs_name]

    # Find all unconnected inputs.
    all_ivc_abs = [k for k, v in prob.model._conn_abs_in2out.items() if 'ivc' in v]
    all_ivc_prom = [abs2prom(v) for v in all_ivc_abs]
    aviary_metadata = prob.meta_data

    bare_inputs = all_ivc_prom
    for name, model in models.items():
        if multi_mission:
            aviary_inputs = model.aviary_inputs
        else:
            aviary_inputs = prob.aviary_inputs

        bare_inputs = {v for v in bare_inputs if v not in aviary_inputs}
        if multi_mission:
            bare_inputs = {v for v in bare_inputs if v.removeprefix(f'{name}.') not in aviary_inputs}

    bare_hierarchy_inputs = {
        v
        for v in bare_inputs
        if v.startswith('mission:')
        or v.startswith('aircraft:')
        or '.mission:' in v
        or '.aircraft:' in v
    }
    bare_local_inputs = bare_inputs - bare_hierarchy_inputs

    # There are no more collective calls, so we can exit.
    if MPI and prob.comm.rank != 0:
        return

    with open(report_file, mode='w') as f:
        f.write('# Unspecified Hierarchy Variables\n')
        f.write(
            'These aviary inputs are unspecified in aviary_inputs, and may be using default values '
            'defined in the Aviary metadata.\n\n'
        )

        if bare_hierarchy_inputs:
            f.write('| Name | Value | Units | Description | Absolute Paths\n')
            f.write('| :- |  :- |  :- | :- | :- |\n')

            for var in sorted(bare_hierarchy_inputs):
                metadata = aviary_metadata.get(var)
                abs_paths = prom2abs(var)

                try:
                    units = metadata['units']
                except (TypeError, KeyError):
                    metadata = aviary_metadata.get(var.split('.')[-1])

                    try:
                        units = metadata['units']
                    except (TypeError, KeyError):
                        # This happens when the var is not defined in metadata.
                        metadata = prob.model.get_io_metadata('input')[abs_paths[0]]
                        units = metadata['units']

                val = prob.model.get_val(var, units=units)
                desc = metadata['desc']

                f.write(f'| **{var}** | {val} | {units} | {desc} | {abs_paths}|\n')

            f.write('\n')

        else:
            f.write('None\n')

        f.write('# Unspecified Local Variables\n')
        f.write(
            'These local subsystem inputs are unconnected, and may be using default '
            'values specified in the component.\n\n'
        )

        if bare_local_inputs:
            f.write('| Name | Value | Units | Absolute Paths\n')
            f.write('| :- |  :- |  :- | :- |\n')

            for var in sorted(bare_local_inputs):
                # Filter out dymos internals.
                if var.startswith('traj') and '.rhs_all.' not in var:
                    continue

                abs_paths = prom2abs(var)
                meta = prob.model._var_allprocs_abs2meta['input'][abs_paths[0]]
                units = meta['units']
                val = prob.model.get_val(var, units=units)

                f.write(f'| **{var}** | {val} | {units} | {abs_paths}|\n')

            f.write('\n\n')

        else:
            f.write('None')


def timeseries_csv(prob: AviaryProblem, **kwargs):
    """
    Generates a CSV file containing timeseries data for variables from an Aviary mission.

    This function extracts timeseries data from the provided problem object, processes the data
    to unify units across different phases of the mission, and then outputs the result to a CSV file.
    The 'time' variable is moved to the beginning of the dataset so it's always the leftmost column.
    Duplicate consecutive rows are eliminated.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem used to generate this report
    kwargs : dict
        Additional keyword arguments (unused)

    The output CSV file is named 'mission_timeseries_data.csv' and is saved in the reports directory.
    The first row of the CSV file contains headers with variable names and units.
    Each subsequent row represents the mission outputs at a different time step.
    """
    multi_mission = prob.problem_type == ProblemType.MULTI_MISSION
    if multi_mission:
        for _, model in prob.aviary_groups_dict.items():
            # See issue #1186. We need to rewrite this report to support multimission
            # For now, just write the first mission's csv file.
            break
    else:
        model = prob.model

    timeseries_outputs = model.list_outputs(
        includes='*timeseries*', out_stream=None, return_format='dict', units=True
    )
    phase_names = model.traj._phases.keys()

    # There are no more collective calls, so we can exit.
    if MPI and prob.comm.rank != 0:
        return

    timeseries_outputs = {value['prom_name']: value for key, value in timeseries_outputs.items()}

    timeseries_outputs = {
        key: value for key, value in timeseries_outputs.items() if not key.endswith('_phase')
    }

    unique_variable_names = set(
        [timeseries_output.split('.')[-1] for timeseries_output in timeseries_outputs]
    )

    timeseries_data = {}
    for variable_name in unique_variable_names:
        # values missing in a phase are filled in the shape they have in the other phases
        elements = ()
        for phase_name in phase_names:
            meta = timeseries_outputs.get(f'traj.{phase_name}.timeseries.{variable_name}')
            if meta is not None:
                elements = meta['val'].shape[1:]
                break

        first = True  # flag to check if this is first iteration in for loop
        units = None
        for idx_phase, phase_name in enumerate(phase_names):
            variable_str = f'traj.{phase_name}.timeseries.{variable_name}'
            time_str = f'traj.{phase_name}.timeseries.time'

            if variable_str not in timeseries_outputs:
                Warning(
                    f'Variable {variable_str} not found in timeseries_outputs for phase '
                    f'{phase_name}.'
                )
                num_rows = timeseries_outputs[time_str]['val'].shape[0]
                val = np.full((num_rows,) + elements, np.nan)
                if first:
                    val_full_traj = val
                    first = False
                else:
                    val_full_traj = np.vstack((val_full_traj, val))

            else:
                val = timeseries_outputs[variable_str]['val']

                # grab the units from the first phase that uses this variable; use these units for all others
                if units is None:
                    units = timeseries_outputs[variable_str]['units']
                    if first:
                        val_full_traj = val
                        first = False
                    else:
                        val_full_traj = np.vstack((val_full_traj, val))
                else:
                    original_units = timeseries_outputs[variable_str]['units']

                    if original_units != units:
                        val = wrapped_convert_units((val, original_units), units)

                    if first:
                        val_full_traj = val
                        first = False
                    else:
                        val_full_traj = np.vstack((val_full_traj, val))

        # variables with several elements get one column for each of them
        columns = val_full_traj.reshape((val_full_traj.shape[0], -1))
        for idx in range(columns.shape[1]):
            column_name = variable_name if columns.shape[1] == 1 else f'{variable_name}_{idx}'
            timeseries_data[column_name] = {'val': columns[:, idx], 'units': units}

    # Create a DataFrame from timeseries_data
    df_data = {
        variable_name: pd.Series(timeseries_data[variable_name]['val'])
        for variable_name in timeseries_data
    }
    df = pd.DataFrame(df_data)

    time_column = ['time']  # Isolate the 'time' column
    # Sort the rest of the columns
    other_columns = sorted([col for col in df.columns if col != 'time'])
    columns = time_column + other_columns  # Combine them, keeping 'time' first
    df = df[columns]

    # Add units to column names
    df.columns = [f'{col} ({timeseries_data[col]["units"]})' for col in df.columns]

    df.drop_duplicates()

    # The path where you want to save the CSV file
    reports_folder = Path(prob.get_reports_dir())
    report_file = reports_folder / 'mission_timeseries_data.csv'

    # Write the DataFrame to a CSV file
    df.to_csv(report_file, index=False)


def overridden_variables_report(prob: AviaryProblem, **kwargs):
    """
    Creates a report listing the overridden variables.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem used to generate this report
    """

    reports_folder = Path(prob.get_reports_dir())
    report_file = reports_folder / 'overridden_variables.md'
    with open(report_file, mode='w') as f:
        # check to see if this is a multi-mission problem
        #   and make a list of all the aviary groups
        if prob.aviary_groups_dict:
            for mission_name, aviary_group in prob.aviary_groups_dict.items():
                _overridden_variables_group_report(prob, aviary_group, mission_name, f)
        else:
            _overridden_variables_group_report(prob, prob.model, None, f)


def _overridden_variables_group_report(prob, group, mission_name, f):
    """
    Writes overridden variables report for a single aviary group.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem instance
    group : Group
        The OpenMDAO group to analyze for overridden variables
    mission_name : str or None
        Name of the mission (for multi-mission problems) or None
    f : file object
        Open file handle to write the report to
    """
    resolver = group._resolver

    non_external_overridden_variables = []
    external_variables = {}

    for prom_name in resolver.prom_iter(iotype='output'):
        # These variables are the result of replacing a computed value
        #   with the output of another component
        if 'EXTERNAL_SUBSYSTEM_OVERRIDE' in prom_name:
            abs_name = resolver.absnames(prom_name, 'output')[0]
            aircraft_variable_name = abs_name.split('.')[-1]
            if aircraft_variable_name not in external_variables:
                # the overriding output is the one that kept the name of the variable
                sources = resolver.absnames(aircraft_variable_name, 'output')
                external_variables[aircraft_variable_name] = sources[0]
            continue
        # the phrase "_OVERRIDE" in a variable indicates it is a
        #   calculated value that we are discarding
        if 'AIRCRAFT_DATA_OVERRIDE' in prom_name:
            abs_name = resolver.absnames(prom_name, 'output')[0]
            aircraft_variable_name = abs_name.split('.')[-1]
            aviary_metadata = group.meta_data
            metadata = aviary_metadata.get(aircraft_variable_name)
            try:
                units = metadata['units']
            except (TypeError, KeyError):
                # This happens when the var is not defined in metadata.
                metadata = group.get_io_metadata('output')[abs_name]
                units = metadata['units']
            val = group.aviary_inputs.get_val(aircraft_variable_name, units=units)
            non_external_overridden_variables.append((aircraft_variable_name, val, units))

    if MPI and prob.comm.rank != 0:
        # All collective calls are completed. Reports only generated on rank 0.
        return

    # Now that we have collected all overridden variables, write the report
    if mission_name:
        f.write(f'# MULTIMISSION: {mission_name}\n\n')

    f.write('## Internal Overrides\n')
    if non_external_overridden_variables:
        f.write('| Name   | Value | Units |\n')
        f.write('| ------ |-------| ----- |\n')
        non_external_overridden_variables.sort(key=lambda x: x[0])
        for aircraft_variable_name, val, units in non_external_overridden_variables:
            if isinstance(val, np.ndarray):
                valstring = np.array2string(val, formatter={'float_kind': lambda x: f'{x:.3g}'})
            else:
                valstring = f'{val:.3g}'
            f.write(f'| {aircraft_variable_name} | {valstring} | {units} |\n')
        f.write('\n')
    else:
        f.write('No internal overrides found.\n')

    f.write('<br>\n\n')

    f.write('## External Subsystem Overrides\n')
    if external_variables:
        f.write('| Name | Overriding OpenMDAO path |\n')
        f.write('| ---- | ------------------------ |\n')
        for aircraft_variable_name in sorted(external_variables.keys()):
            absname = external_variables[aircraft_variable_name]
            f.write(f'| {aircraft_variable_name} | {absname} |\n')

        f.write('\n')
    else:
        f.write('No external subsystem overrides found.\n')


def _list_options_report(prob: AviaryProblem, **kwargs):
    """
    Writes a report with the output of the Problem.list_options method.

    Parameters
    ----------
    prob : AviaryProblem
        The AviaryProblem instance
    **kwargs : dict
        Additional keyword arguments, not used in this function
    """

    reports_folder = Path(prob.get_reports_dir())
    report_file = reports_folder / 'options.txt'
    with open(report_file, mode='w') as f:
        prob.model.list_options(out_stream=f, include_default=False, include_solvers=False)
