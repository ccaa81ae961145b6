"""
fortran_to_aviary.py is used to read in Fortran based vehicle decks and convert them to Aviary decks.

FLOPS, GASP, or Aviary names can be used for variables (Ex WG or aircraft:design:gross_mass)
When specifying variables from FORTRAN, they should be in the appropriate NAMELIST.
Aviary variable names should be specified outside any NAMELISTS.
Names are not case-sensitive.
Units can be specified using any of the openMDAO valid units.
Comments can be added using !
Lists can be entered by separating values with commas.
Individual list elements can be specified by adding an index after the variable name.
(NOTE: 1 indexing is used inside NAMELISTS, while 0 indexing is used outside NAMELISTS)

Example inputs:
aircraft:fuselage:pressure_differential = .5, atm !DELP in GASP, but using atmospheres instead of psi
ARNGE(1) = 3600 !target range in nautical miles
"""

import csv
import getpass
import warnings
from datetime import datetime
from pathlib import Path

from openmdao.utils.units import valid_units

from aviary_ref.utils.functions import convert_strings_to_data, get_path
from aviary_ref.utils.legacy_code_data.flops_defaults import flops_default_values, flops_deprecated_vars
from aviary_ref.utils.legacy_code_data.gasp_defaults import gasp_default_values, gasp_deprecated_vars
from aviary_ref.utils.named_values import NamedValues
from aviary_ref.utils.utils import wrapped_convert_units
from aviary_ref.variable_info.enums import LegacyCode, Verbosity
from aviary_ref.variable_info.variable_meta_data import CoreMetaData
from aviary_ref.variable_info.variables import Aircraft, Mission, Settings

FLOPS = LegacyCode.FLOPS
GASP = LegacyCode.GASP


def fortran_to_aviary(
    fortran_deck: str,
    legacy_code=None,
    output_file=None,
    force=False,
    verbosity=Verbosity.BRIEF,
):
    """
    Create an Aviary CSV file from a Fortran input deck
    Required input is the filepath to the input deck and legacy code. Optionally, a
    deck of default values can be specified, this is useful if an input deck
    assumes certain values for any unspecified variables
    If an invalid filepath is given, pre-packaged resources will be checked for
    input decks with a matching name.
    """
    # compatibility with being passed int for verbosity
    verbosity = Verbosity(verbosity)

    # TODO generate both an Aviary input file and a phase_info file

    vehicle_data = {
        'input_values': NamedValues(),
        'unused_values': NamedValues(),
        'initialization_guesses': dict(initialization_guesses),
    }

    fortran_deck: Path = get_path(fortran_deck, verbosity=verbosity)

    timestamp = datetime.now().strftime('%m/%d/%y at %H:%M')
    user = getpass.getuser()
    comments = []

    comments.append(f'# created {timestamp} by {user}')
    comments.append(
        f'# {legacy_code.value}-derived aircraft input deck converted from {fortran_deck.name}'
    )

    if output_file:
        output_file = Path(output_file)
    else:
        name = fortran_deck.stem
        output_file: Path = fortran_deck.parent.resolve().joinpath(name + '_converted.csv')

    # create dictionary to convert legacy code variables to Aviary variables
    # key: variable name, value: either None or relevant historical_name
    aviary_variable_dict = generate_aviary_names(legacy_code.value)

    # Get legacy-code based depreciated variable list and set vehicle data to defaults
    if legacy_code is GASP:
        default_values = gasp_default_values
        deprecated_vars = gasp_deprecated_vars
    elif legacy_code is FLOPS:
        default_values = flops_default_values
        deprecated_vars = flops_deprecated_vars

    # Convert default data to Aviary names, add to vehicle_data
    for item in default_values:
        name = item[0].split('.')
        val = str(item[1][0])
        vehicle_data = process_and_store_data(
            data=val,
            var_name=name[1],
            legacy_code=legacy_code,
            current_namelist=name[0],
            alternate_names=aviary_variable_dict,
            default_values=default_values,
            vehicle_data=vehicle_data,
            unused_vars=deprecated_vars,
            verbosity=verbosity,
        )

    # read in and convert input file
    vehicle_data = parse_input_file(
        fortran_deck,
        vehicle_data,
        aviary_variable_dict,
        default_values,
        deprecated_vars,
        legacy_code,
        verbosity,
    )

    # Postprocessing step to handle special cases for conversion (not 1-to-1 match),
    # per legacy code.
    if legacy_code is GASP:
        vehicle_data = update_gasp_options(vehicle_data, verbosity)
    elif legacy_code is FLOPS:
        vehicle_data = update_flops_options(vehicle_data, comments, verbosity)
    vehicle_data = update_aviary_options(vehicle_data)

    # Add settings and engine data file
    if legacy_code is FLOPS:
        eom = ['energy_state']
        aero = mass = ['FLOPS']
    if legacy_code is GASP:
        eom = ['2DOF']
        aero = mass = ['GASP']
    vehicle_data['input_values'].set_val(Settings.EQUATIONS_OF_MOTION, eom)
    vehicle_data['input_values'].set_val(Settings.MASS_METHOD, mass)
    vehicle_data['input_values'].set_val(Settings.AERODYNAMICS_METHOD, aero)

    if not output_file.is_file():
        # default outputted file to be in same directory as input
        output_file = fortran_deck.parent / output_file

    if output_file.is_file():
        if not force:
            raise RuntimeError(f'{output_file} already exists. Choose a new name or enable --force')
        elif verbosity >= Verbosity.BRIEF:
            print(f'Overwriting existing file: {output_file.name}')

    else:
        # create any directories defined by the new filename if they don't already exist
        output_file.parent.mkdir(parents=True, exist_ok=True)
        if verbosity >= Verbosity.VERBOSE:
            print('Writing to:', output_file)

    # TODO Use the existing utilities to write this input file? It will be much more
    #      human-readable
    # open the file in write mode
    with open(output_file, 'w', newline='') as f:
        writer = csv.writer(f)
        # Write header info and comments
        for comment in comments:
            writer.writerow([comment])
        writer.writerow([])
        # Values that have been successfully translated to Aviary variables
        writer.writerow(['# Input Values'])
        for var, (val, units) in sorted(vehicle_data['input_values']):
            writer.writerow([var] + val + [units])

        if legacy_code is GASP:
            # Values used in initial guessing of the trajectory
            writer.writerow([])
            writer.writerow(['# Initialization Guesses'])
            for var_name in sorted(vehicle_data['initialization_guesses']):
                row = [var_name, vehicle_data['initialization_guesses'][var_name]]
                writer.writerow(row)

        # Values that were not successfully converted
        writer.writerow([])
        writer.writerow(['# Unconverted Values'])
        for var, (val, _) in sorted(vehicle_data['unused_values']):
            writer.writerow([var] + val)


def parse_input_file(
    fortran_deck,
    vehicle_data,
    alternate_names,
    default_values,
    unused_vars,
    legacy_code,
    verbosity=Verbosity.BRIEF,
):
    """
    parse_input_file reads the data in fortran_deck and adds it to vehicle_data.

    Lines are read one by one, comments are removed, and namelists are tracked.
    Lines with multiple variable-data pairs are supported, but the last value per
    variable must be followed by a trailing comma.
    """
    with open(fortran_deck, 'r') as f_in:
        current_namelist = current_tag = ''
        for line in f_in:
            terminate_namelist = False

            tmp = [*line.split('!', 1), '']
            line, comment = tmp[0], tmp[1]  # anything after the first ! is a comment

            # remove all white space and trailing commas
            line = ''.join(line.split()).rstrip(',')
            if len(line.split()) == 0:
                continue  # skip line if it contains only white space

            # Track when namelists are opened and closed
            if (line.lstrip()[0] in ['$', '&']) and current_tag == '':
                current_tag = line.lstrip()[0]
                current_namelist = line.split(current_tag)[1].split()[0]
            elif (line.lstrip()[0] == current_tag) or (line.rstrip()[-1] == '/'):
                line = line.replace('/', '')
                terminate_namelist = True

            number_of_variables = line.count('=')
            if number_of_variables == 1:
                # get the first element and remove white space
                var_name = ''.join(line.split('=')[0].split())
                # everything after the = is the data
                data = line.split('=')[1]
                try:
                    vehicle_data = process_and_store_data(
                        data,
                        var_name,
                        legacy_code,
                        current_namelist,
                        alternate_names,
                        default_values,
                        vehicle_data,
                        unused_vars,
                        comment,
                        verbosity,
                    )
                except Exception as err:
                    if current_namelist == '':
                        raise RuntimeError(
                            line + ' could not be parsed successfully.'
                            '\nIf this was intended as a comment, '
                            'add an "!" at the beginning of the line.'
                        ) from err
                    else:
                        raise err
            elif number_of_variables > 1:
                sub_line = line.split('=')  # split the line at each =
                var_name = sub_line[0]  # the first element is the first name
                for ii in range(number_of_variables):
                    # Each of the following elements contains all of the data for the current variable
                    # and the last element is the name of the next variable
                    sub_list = sub_line[ii + 1].split(',')
                    if ii + 1 < number_of_variables:
                        next_var_name = sub_list.pop()
                        if not next_var_name[0].isalpha():
                            index = next(
                                (i for i, c in enumerate(next_var_name) if c.isalpha()),
                                len(next_var_name),
                            )
                            sub_list.append(next_var_name[:index])
                            next_var_name = next_var_name[index:]

                    data = ','.join(sub_list)
                    try:
                        vehicle_data = process_and_store_data(
                            data,
                            var_name,
                            legacy_code,
                            current_namelist,
                            alternate_names,
                            default_values,
                            vehicle_data,
                            unused_vars,
                            comment,
                            verbosity,
                        )
                    except Exception as err:
                        if current_namelist == '':
                            raise RuntimeError(
                                line + ' could not be parsed successfully.'
                                '\nIf this was intended as a comment, '
                                'add an "!" at the beginning of the line.'
                            ) from err
                        else:
                            raise err
                    var_name = next_var_name

            if terminate_namelist:
                current_namelist = current_tag = ''

    return vehicle_data


def process_and_store_data(
    data,
    var_name,
    legacy_code,
    current_namelist,
    alternate_names,
    default_values,
    vehicle_data,
    unused_vars,
    comment='',
    verbosity=Verbosity.BRIEF,
):
    """
    process_and_store_data takes in a string that contains the data, the current variable's name and
    namelist, the dictionary of alternate names, and the current vehicle data.
    It will convert the string of data into a list, get units, check whether the data specified is
    part of a list or a single element, and update the current name to it's equivalent Aviary name.
    The variables are also sorted based on whether they will set an Aviary variable or they are for initial guessing.
    """
    guess_names = list(initialization_guesses.keys())
    var_ind = data_units = None
    skip_variable = False
    # skip any variables that shouldn't get converted
    base_name = (current_namelist + '.' + var_name).split('(')[0].lower()
    if base_name in [unused_var.lower() for unused_var in unused_vars]:
        return vehicle_data
    # remove any elements that are empty (caused by trailing commas or extra commas)
    data_list = [dat for dat in data.split(',') if dat != '']
    if len(data_list) > 0:
        if valid_units(data_list[-1]):
            # if the last element is a unit, remove it from the list and update the
            # variable's units
            data_units = data_list.pop()
        var_values = convert_strings_to_data(data_list)
    else:
        skip_variable = True
        var_values = []

    list_of_equivalent_aviary_names, var_ind = update_name(
        alternate_names, current_namelist + '.' + var_name, verbosity
    )

    # Fortran uses 1 indexing, Python uses 0 indexing
    fortran_offset = 1 if current_namelist else 0
    if var_ind is not None:
        var_ind -= fortran_offset

    # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
    if (current_namelist + '.' + var_name).upper() == 'INPROP.GR':
        var_values = [1 / var for var in var_values]
        vehicle_data['input_values'] = set_value(
            Aircraft.Engine.Gearbox.GEAR_RATIO,
            var_values,
            data_units,
            vehicle_data['input_values'],
            var_ind=var_ind,
        )

    for name in list_of_equivalent_aviary_names:
        if not skip_variable:
            if name in guess_names and legacy_code is GASP:
                # all initial guesses take only a single value
                vehicle_data['initialization_guesses'][name] = float(var_values[0])
                continue

            elif name in CoreMetaData:
                if data_units is None and current_namelist + '.' + var_name in default_values:
                    data_units = default_values.get_item(current_namelist + '.' + var_name)[1]
                vehicle_data['input_values'] = set_value(
                    name,
                    var_values,
                    data_units,
                    vehicle_data['input_values'],
                    var_ind=var_ind,
                )
                continue

        vehicle_data['unused_values'] = set_value(
            name,
            var_values,
            data_units,
            vehicle_data['unused_values'],
            var_ind=var_ind,
        )
        if verbosity >= Verbosity.VERBOSE:
            print('Unused:', name, var_values, comment)

    return vehicle_data


def find_name(values: NamedValues, name):
    """Find the latest spelling that values uses for a (case-insensitive) name."""
    for key in reversed(list(values.keys())):
        if key.lower() == name.lower():
            return key
    return name


def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, var_ind=None):
    """
    set_value will update the current value of a variable in a value dictionary that contains a value
    and it's associated units.
    If units are specified for the new value, they will be used, otherwise the current units in the
    value dictionary or the default units from CoreMetaData are used.
    If the new variable is part of a list, the current list will be extended if needed.
    """
    if var_name in value_dict:
        current_value, current_units = value_dict.get_item(var_name)
        if not units:
            units = current_units
    else:
        current_value = None
        if var_name in CoreMetaData:
            if not units:
                units = CoreMetaData[var_name]['units']
    if not units:
        units = 'unitless'

    if var_ind is not None:
        # if an index is specified, use it, otherwise store the input as the whole value
        if isinstance(current_value, list):
            max_ind = len(current_value) - 1
            if var_ind > max_ind:
                current_value.extend((var_ind - max_ind) * [0])
        else:
            current_value = [current_value] + [0] * var_ind
        current_value[var_ind] = var_value[0]
        value_dict.set_val(var_name, current_value, units)
    else:
        if current_value is not None and isinstance(current_value[0], bool):
            # if a variable is defined as boolean but is read in as number, set as
            # boolean
            if var_value[0] == 1:
                var_value = ['True']
            elif var_value[0] == 0:
                var_value = ['False']
            else:
                ValueError(f'{var_name} allows 0 and 1 only, but it is {var_value[0]}')
        value_dict.set_val(var_name, var_value, units)
    return value_dict


def generate_aviary_names(legacy_code):
    """
    Create a dictionary that maps the specified Fortran code to Aviary variable names.
    Each Aviary variable will have a list of matching Fortran names.
    """
    alternate_names = {}
    for key in CoreMetaData.keys():
        historical_dict = CoreMetaData[key]['historical_name']
        if historical_dict and legacy_code in historical_dict:
            alt_name = CoreMetaData[key]['historical_name'][legacy_code]
            if isinstance(alt_name, str):
                alt_name = [alt_name]
            alternate_names[key] = alt_name
    return alternate_names


def update_name(alternate_names, var_name, verbosity=Verbosity.BRIEF):
    """update_name will convert a Fortran name to a list of equivalent Aviary names."""
    if '(' in var_name:  # some GASP lists are given as individual elements
        # get the target index
        var_ind = int(var_name.split('(')[1].split(')')[0])
        var_name = var_name.split('(')[0]  # remove the index formatting
    else:
        var_ind = None

    # Aviary names, which are given outside namelists, are used as they are
    if var_name.lstrip('.').lower() in CoreMetaData:
        return [var_name.lstrip('.').lower()], var_ind

    all_equivalent_names = []
    for key, list_of_names in alternate_names.items():
        if list_of_names is not None:
            for altname in list_of_names:
                altname = altname.lower()
                if altname.endswith(var_name.lower()):
                    all_equivalent_names.append(key)
                    continue
                elif var_ind is not None and altname.endswith(f'{var_name.lower()}({var_ind})'):
                    all_equivalent_names.append(key)
                    var_ind = None
                    continue

    # if there are no equivalent variable names, return the original name
    if len(all_equivalent_names) == 0:
        if verbosity >= Verbosity.VERBOSE:
            print('passing: ', var_name)
        all_equivalent_names = [var_name]

    return all_equivalent_names, var_ind


def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
    """Handles variables that are affected by the values of others."""
    input_values: NamedValues = vehicle_data['input_values']

    for var_name in gasp_scaler_variables:
        update_gasp_scaler_variables(var_name, input_values)

    flap_types = [
        'plain',
        'split',
        'single_slotted',
        'double_slotted',
        'triple_slotted',
        'fowler',
        'double_slotted_fowler',
    ]

    design_type, design_units = input_values.get_item(Aircraft.Design.TYPE)
    if design_type[0] == 0:
        input_values.set_val(Aircraft.Design.TYPE, ['transport'], design_units)
    elif design_type[0] == 1:
        input_values.set_val(Aircraft.Design.TYPE, ['BWB'], design_units)

    ## PROBLEM TYPE ##
    # if multiple values of target_range are specified, use the one that
    # corresponds to the problem_type
    design_range, distance_units = input_values.get_item(Aircraft.Design.RANGE)
    try:
        problem_type = input_values.get_val(Settings.PROBLEM_TYPE)[0]
    except KeyError:
        problem_type = 'sizing'

    if isinstance(design_range, list):
        # if the design range target_range value is 0, set the problem_type to off_design_max_range
        if design_range[0] == 0:
            problem_type = 'off_design_max_range'
            input_values.set_val(Settings.PROBLEM_TYPE, [problem_type])
            design_range = 0
        if problem_type == 'sizing':
            design_range = design_range[0]
        elif problem_type == 'alternate':
            design_range = design_range[2]
        elif problem_type == 'off_design_max_range':
            design_range = 0
    else:
        if design_range == 0:
            input_values.set_val(Settings.PROBLEM_TYPE, ['off_design_max_range'])
    input_values.set_val(Aircraft.Design.RANGE, [design_range], distance_units)

    ## Passengers ##
    if Aircraft.CrewPayload.Design.NUM_PASSENGERS in input_values:
        num_passengers = input_values.get_val(
            Aircraft.CrewPayload.Design.NUM_PASSENGERS, 'unitless'
        )[0]
        num_passengers = int(num_passengers)
        input_values.set_val(
            Aircraft.CrewPayload.Design.NUM_PASSENGERS, [num_passengers], 'unitless'
        )

    if Aircraft.CrewPayload.Design.NUM_FIRST_CLASS in input_values:
        # In GASP, percentage of total number of passengers is given.
        # Convert it to the actual first class passengers.
        pct_first_class = input_values.get_val(
            Aircraft.CrewPayload.Design.NUM_FIRST_CLASS, 'unitless'
        )[0]
        num_first_class = int(pct_first_class * num_passengers)
        input_values.set_val(
            Aircraft.CrewPayload.Design.NUM_FIRST_CLASS, [num_first_class], 'unitless'
        )
        num_economy_class = num_passengers - num_first_class
        input_values.set_val(
            Aircraft.CrewPayload.Design.NUM_ECONOMY_CLASS, [num_economy_class], 'unitless'
        )

    ## Seats ##
    if Aircraft.Fuselage.NUM_AISLES in input_values:
        num_aisles = input_values.get_val(Aircraft.Fuselage.NUM_AISLES, 'unitless')[0]
        num_aisles = int(num_aisles)
        input_values.set_val(Aircraft.Fuselage.NUM_AISLES, [num_aisles], 'unitless')
        num_seat_abreast_economy = input_values.get_val(
            Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY, 'unitless'
        )[0]
        num_seat_abreast_economy = int(num_seat_abreast_economy)
        if num_seat_abreast_economy == 0:
            num_seat_abreast_economy = 6
        input_values.set_val(
            Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY, [num_seat_abreast_economy]
        )
        try:
            num_seat_abreast_first = int(
                input_values.get_val(
                    Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_FIRST, 'unitless'
                )[0]
            )
            if num_seat_abreast_first == 0:
                num_seat_abreast_first = 4
            input_values.set_val(
                Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_FIRST, [num_seat_abreast_first]
            )
        except:
            pass
        try:
            num_seat_abreast_business = int(
                input_values.get_val(
                    Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_BUSINESS, 'unitless'
                )[0]
            )
            if num_seat_abreast_business == 0:
                num_seat_abreast_business = 5
            input_values.set_val(
                Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_BUSINESS, [num_seat_abreast_business]
            )
        except:
            pass
        try:
            seat_pitch_business = float(
                input_values.get_val(Aircraft.CrewPayload.Design.SEAT_PITCH_BUSINESS, 'inch')[0]
            )
            if seat_pitch_business == 0.0:
                seat_pitch_business = 39.0
            input_values.set_val(
                Aircraft.CrewPayload.Design.SEAT_PITCH_BUSINESS, [seat_pitch_business], 'inch'
            )
        except:
            pass
        try:
            seat_pitch_economy = float(
                input_values.get_val(Aircraft.CrewPayload.Design.SEAT_PITCH_ECONOMY, 'inch')[0]
            )
            if seat_pitch_economy == 0.0:
                seat_pitch_economy = 32.0
            input_values.set_val(
                Aircraft.CrewPayload.Design.SEAT_PITCH_ECONOMY, [seat_pitch_economy], 'inch'
            )
        except:
            pass
        try:
            seat_pitch_first = float(
                input_values.get_val(Aircraft.CrewPayload.Design.SEAT_PITCH_FIRST, 'inch')[0]
            )
            if seat_pitch_first == 0.0:
                seat_pitch_first = 61.0
            input_values.set_val(
                Aircraft.CrewPayload.Design.SEAT_PITCH_FIRST, [seat_pitch_first], 'inch'
            )
        except:
            pass

    ## Cargo ##
    if (
        Aircraft.CrewPayload.CARGO_MASS in input_values
        and Aircraft.CrewPayload.Design.MAX_CARGO_MASS not in input_values
    ):
        # user has set cargo only: assume intention to set max only for backwards compatibility.
        cargo, units = input_values.get_item(Aircraft.CrewPayload.Design.CARGO_MASS)
        input_values.set_val(Aircraft.CrewPayload.Design.MAX_CARGO_MASS, cargo, units)
        input_values.set_val(Aircraft.CrewPayload.CARGO_MASS, 0, units)
        input_values.set_val(Aircraft.CrewPayload.Design.CARGO_MASS, 0, units)

    ## STRUT AND FOLD ##
    strut_loc = input_values.get_val(Aircraft.Strut.ATTACHMENT_LOCATION, 'ft')[0]
    folded_span = input_values.get_val(Aircraft.Wing.FOLDED_SPAN, 'ft')[0]

    if strut_loc == 0:
        input_values.set_val(Aircraft.Wing.HAS_STRUT, [False], 'unitless')
    else:
        input_values.set_val(Aircraft.Wing.HAS_STRUT, [True], 'unitless')
    if folded_span == 0:
        input_values.set_val(Aircraft.Wing.HAS_FOLD, [False], 'unitless')
    else:
        input_values.set_val(Aircraft.Wing.HAS_FOLD, [True], 'unitless')
        if strut_loc > 0:
            input_values.set_val(Aircraft.Wing.CHOOSE_FOLD_LOCATION, [False], 'unitless')
        elif strut_loc == 0:
            input_values.set_val(Aircraft.Wing.CHOOSE_FOLD_LOCATION, [True], 'unitless')

    if strut_loc < 0:
        input_values.set_val(Aircraft.Wing.HAS_FOLD, [True], 'unitless')
        input_values.set_val(Aircraft.Wing.CHOOSE_FOLD_LOCATION, [False], 'unitless')
        strut_loc = abs(strut_loc)

    if strut_loc < 1:
        input_values.set_val(
            Aircraft.Strut.ATTACHMENT_LOCATION_DIMENSIONLESS, [strut_loc], 'unitless'
        )
        input_values.set_val(Aircraft.Strut.DIMENSIONAL_LOCATION_SPECIFIED, [False], 'unitless')
    else:
        input_values.set_val(Aircraft.Strut.ATTACHMENT_LOCATION, [strut_loc], 'ft')
        input_values.set_val(Aircraft.Strut.DIMENSIONAL_LOCATION_SPECIFIED, [True], 'unitless')

    if input_values.get_val(Aircraft.Wing.HAS_FOLD)[0]:
        if not input_values.get_val(Aircraft.Wing.CHOOSE_FOLD_LOCATION)[0]:
            input_values.set_val(
                Aircraft.Wing.FOLD_DIMENSIONAL_LOCATION_SPECIFIED, [True], 'unitless'
            )
        else:
            if input_values.get_val(Aircraft.Wing.FOLDED_SPAN, 'ft')[0] > 1:
                input_values.set_val(
                    Aircraft.Wing.FOLD_DIMENSIONAL_LOCATION_SPECIFIED,
                    [True],
                    'unitless',
                )
            else:
                input_values.set_val(
                    Aircraft.Wing.FOLD_DIMENSIONAL_LOCATION_SPECIFIED,
                    [False],
                    'unitless',
                )
    else:
        input_values.set_val(Aircraft.Wing.CHOOSE_FOLD_LOCATION, [True], 'unitless')
        input_values.set_val(Aircraft.Wing.FOLD_DIMENSIONAL_LOCATION_SPECIFIED, [False], 'unitless')

    ## FLAPS ##
    flap_type = input_values.get_val(Aircraft.Wing.FLAP_TYPE)[0]
    if not isinstance(flap_type, str):
        flap_type = flap_types[flap_type - 1]
        input_values.set_val(Aircraft.Wing.FLAP_TYPE, [flap_type])
    flap_ind = flap_types.index(flap_type)
    if input_values.get_val(Aircraft.Wing.HIGH_LIFT_MASS_COEFFICIENT)[0] <= 0:
        input_values.set_val(
            Aircraft.Wing.HIGH_LIFT_MASS_COEFFICIENT,
            [[0.62, 1.0, 0.733, 1.2, 1.32, 0.633, 0.678][flap_ind]],
        )
    if input_values.get_val(Aircraft.Wing.OPTIMUM_FLAP_DEFLECTION, 'deg')[0] == 0:
        input_values.set_val(
            Aircraft.Wing.OPTIMUM_FLAP_DEFLECTION,
            [[60, 60, 40, 55, 55, 30, 30][flap_ind]],
            'deg',
        )
    if input_values.get_val(Aircraft.Wing.FLAP_LIFT_INCREMENT_OPTIMUM)[0] == 0:
        input_values.set_val(
            Aircraft.Wing.FLAP_LIFT_INCREMENT_OPTIMUM,
            [[0.9, 0.8, 1.18, 1.4, 1.6, 1.67, 2.25][flap_ind]],
        )
    if input_values.get_val(Aircraft.Wing.FLAP_DRAG_INCREMENT_OPTIMUM)[0] == 0:
        input_values.set_val(
            Aircraft.Wing.FLAP_DRAG_INCREMENT_OPTIMUM,
            [[0.12, 0.23, 0.13, 0.23, 0.23, 0.1, 0.15][flap_ind]],
        )
    if Aircraft.Wing.NUM_FLAP_SEGMENTS in input_values:
        num_flap_segments = input_values.get_val(Aircraft.Wing.NUM_FLAP_SEGMENTS, 'unitless')[0]
        num_flap_segments = int(num_flap_segments)
        input_values.set_val(Aircraft.Wing.NUM_FLAP_SEGMENTS, [num_flap_segments], 'unitless')

    ## FUEL RESERVES ##
    reserve_fuel_mass_additional = input_values.get_val(
        Mission.RESERVE_FUEL_MASS_ADDITIONAL, units='lbm'
    )[0]
    if reserve_fuel_mass_additional <= 0:
        # This is a percentage of mission fuel
        input_values.set_val(
            Mission.RESERVE_FUEL_MARGIN, [-reserve_fuel_mass_additional * 100], units='unitless'
        )  # flip the value and multipy by 100 because it is a percentage
        input_values.set_val(
            Mission.RESERVE_FUEL_MASS_ADDITIONAL, [0], units='lbm'
        )  # then clear out the unused value
    if reserve_fuel_mass_additional > 0 and reserve_fuel_mass_additional < 10:
        ValueError(
            '"FRESF" is not valid between 0 and 10. To set a reserve mission flight time you must setup a reserve mission definition with a target_duration.'
        )
        input_values.set_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, [0], units='lbm')
    if reserve_fuel_mass_additional >= 10:
        # we leave reserve_fuel_mass_additional as it is
        pass

    # Wing Fuel Tank Sizing ##
    reserve_fuel_volume = input_values.get_val(Aircraft.Fuel.VOLUME_MARGIN, units='unitless')[0]

    if reserve_fuel_volume < 0:
        ValueError(
            '"FVOL_MRG" is not valid below 0. Cannot set fuel volume reserves to less than zero'
        )  #
        input_values.set_val(Aircraft.Fuel.VOLUME_MARGIN, [0], units='lbm')

    # FLARE LOAD FACTOR ##
    if Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR in input_values:
        if input_values.get_val(Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR)[0] > 4:
            if verbosity > Verbosity.BRIEF:
                warnings.warn(
                    'When XLFMX > 4, it is landing flare initiation height (ft), '
                    'not landing flare load factor.'
                )
            input_values.delete(Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR)

    # if the value is negative, we are asking the code to calculate it
    # if it is positive, then we are going to use it as an override
    if input_values.get_val(Aircraft.Wing.FORM_FACTOR)[0] < 0:
        input_values.delete(Aircraft.Wing.FORM_FACTOR)
    if input_values.get_val(Aircraft.HorizontalTail.FORM_FACTOR)[0] < 0:
        input_values.delete(Aircraft.HorizontalTail.FORM_FACTOR)
    if input_values.get_val(Aircraft.VerticalTail.FORM_FACTOR)[0] < 0:
        input_values.delete(Aircraft.VerticalTail.FORM_FACTOR)
    if input_values.get_val(Aircraft.Fuselage.FORM_FACTOR)[0] < 0:
        input_values.delete(Aircraft.Fuselage.FORM_FACTOR)
    if input_values.get_val(Aircraft.Nacelle.FORM_FACTOR)[0] < 0:
        input_values.delete(Aircraft.Nacelle.FORM_FACTOR)
    if Aircraft.Strut.FUSELAGE_INTERFERENCE_FACTOR in input_values:
        if input_values.get_val(Aircraft.Strut.FUSELAGE_INTERFERENCE_FACTOR)[0] < 0:
            input_values.delete(Aircraft.Strut.FUSELAGE_INTERFERENCE_FACTOR)

    # GASP-converted engine decks have uneven throttle ranges, which require the enabling
    # of global throttle range. This will result in extrapolation of the engine deck,
    # but provides closer matches to legacy results. To remove use of global throttle
    # (and therefore eliminate extrapolation), a T4 limit needs to be manually set for
    # the mission
    input_values.set_val(Aircraft.Engine.GLOBAL_THROTTLE, [True])

    # CARGO
    if Aircraft.CrewPayload.Design.MAX_CARGO_MASS in input_values:
        if input_values.get_val(Aircraft.CrewPayload.Design.MAX_CARGO_MASS, 'lbm')[0] >= 0:
            input_values.set_val(Aircraft.CrewPayload.Design.CARGO_MASS, [0.0], 'lbm')
            input_values.set_val(Aircraft.CrewPayload.CARGO_MASS, [0.0], 'lbm')

    # ENGINE
    if Aircraft.Engine.NUM_ENGINES in input_values:
        num_engines = input_values.get_val(Aircraft.Engine.NUM_ENGINES, 'unitless')[0]
        num_engines = int(num_engines)
    else:
        num_engines = 1
    input_values.set_val(Aircraft.Engine.NUM_ENGINES, [num_engines], 'unitless')
    if Aircraft.Design.TYPE in input_values:
        design_type = input_values.get_val(Aircraft.Design.TYPE, 'unitless')[0]
        if design_type == 'BWB':
            num_fuselage_engines = num_engines
            # assume all engines are fuselage engines
            input_values.set_val(
                Aircraft.Engine.NUM_FUSELAGE_ENGINES, [num_fuselage_engines], 'unitless'
            )
    else:
        input_values.set_val(Aircraft.Design.TYPE, 'transport')
    if Aircraft.Engine.TYPE in input_values:
        engine_type = input_values.get_val(Aircraft.Engine.TYPE, 'unitless')[0]
        if verbosity > Verbosity.BRIEF:
            warnings.warn(
                f'Engine type {engine_type} was provided; currently only TURBOPROP(6) and '
                'TURBOJET(7) are supported by Aviary'
            )

    # FURNISHING
    if Aircraft.Furnishings.MASS in input_values:
        furnishing_mass_scaler = input_values.get_val(Aircraft.Furnishings.MASS, 'lbm')[0]
        if furnishing_mass_scaler < 0:
            furnishing_mass_scaler = abs(furnishing_mass_scaler)
            input_values.set_val(Aircraft.Furnishings.MASS_SCALER, [furnishing_mass_scaler], 'lbm')
            input_values.delete(Aircraft.Furnishings.MASS)

    unused_values = vehicle_data['unused_values']
    knac = unused_values.get_item(find_name(unused_values, 'INGASP.KNAC'))[0][0]
    if knac != 2:
        try:
            input_values.delete(Aircraft.Nacelle.AVG_DIAMETER)
            input_values.delete(Aircraft.Nacelle.AVG_LENGTH)
        except:
            pass

    # Friction factors (combine drag factor and technology factor into one factor)
    round_position = 6
    if Aircraft.Fuselage.DRAG_FACTOR in input_values:
        drag_scaler = input_values.get_val(Aircraft.Fuselage.DRAG_FACTOR, 'unitless')[0]
        try:
            tech_name = find_name(unused_values, 'INGASP.FCFFT')
            tech_factor = unused_values.get_item(tech_name)[0][0]
            unused_values.delete(tech_name)
        except:
            tech_factor = 1.0
        drag_scaler = round(drag_scaler * tech_factor, round_position)
        input_values.set_val(Aircraft.Fuselage.DRAG_FACTOR, [drag_scaler], 'unitless')

    if Aircraft.HorizontalTail.DRAG_FACTOR in input_values:
        drag_scaler = input_values.get_val(Aircraft.HorizontalTail.DRAG_FACTOR, 'unitless')[0]
        try:
            tech_name = find_name(unused_values, 'INGASP.FCFHTT')
            tech_factor = unused_values.get_item(tech_name)[0][0]
            unused_values.delete(tech_name)
        except:
            tech_factor = 1.0
        drag_scaler = round(drag_scaler * tech_factor, round_position)
        input_values.set_val(Aircraft.HorizontalTail.DRAG_FACTOR, [drag_scaler], 'unitless')

    if Aircraft.Design.INTERFERENCE_DRAG_FACTOR in input_values:
        drag_scaler = input_values.get_val(Aircraft.Design.INTERFERENCE_DRAG_FACTOR, 'unitless')[0]
        try:
            tech_name = find_name(unused_values, 'INGASP.FCKIT')
            tech_factor = unused_values.get_item(tech_name)[0][0]
            unused_values.delete(tech_name)
        except:
            tech_factor = 1.0
        drag_scaler = round(drag_scaler * tech_factor, round_position)
        input_values.set_val(Aircraft.Design.INTERFERENCE_DRAG_FACTOR, [drag_scaler], 'unitless')

    if Aircraft.Nacelle.DRAG_FACTOR in input_values:
        drag_scaler = input_values.get_val(Aircraft.Nacelle.DRAG_FACTOR, 'unitless')[0]
        try:
            tech_name = find_name(unused_values, 'INGASP.FCFNT')
            tech_factor = unused_values.get_item(tech_name)[0][0]
            unused_values.delete(tech_name)
        except:
            tech_factor = 1.0
        drag_scaler = round(drag_scaler * tech_factor, round_position)
        input_values.set_val(Aircraft.Nacelle.DRAG_FACTOR, [drag_scaler], 'unitless')

    if Aircraft.Strut.DRAG_FACTOR in input_values:
        drag_scaler = input_values.get_val(Aircraft.Strut.DRAG_FACTOR, 'unitless')[0]
        try:
            tech_name = find_name(unused_values, 'INGASP.FCFSTRT')
            tech_factor = unused_values.get_item(tech_name)[0][0]
            unused_values.delete(tech_name)
        except:
            tech_factor = 1.0
        drag_scaler = round(drag_scaler * tech_factor, round_position)
        input_values.set_val(Aircraft.Strut.DRAG_FACTOR, [drag_scaler], 'unitless')

    if Aircraft.VerticalTail.DRAG_FACTOR in input_values:
        drag_scaler = input_values.get_val(Aircraft.VerticalTail.DRAG_FACTOR, 'unitless')[0]
        try:
            tech_name = find_name(unused_values, 'INGASP.FCFVTT')
            tech_factor = unused_values.get_item(tech_name)[0][0]
            unused_values.delete(tech_name)
        except:
            tech_factor = 1.0
        drag_scaler = round(drag_scaler * tech_factor, round_position)
        input_values.set_val(Aircraft.VerticalTail.DRAG_FACTOR, [drag_scaler], 'unitless')

    if Aircraft.Wing.DRAG_FACTOR in input_values:
        drag_scaler = input_values.get_val(Aircraft.Wing.DRAG_FACTOR, 'unitless')[0]
        try:
            tech_name = find_name(unused_values, 'INGASP.FCFWT')
            tech_factor = unused_values.get_item(tech_name)[0][0]
            unused_values.delete(tech_name)
        except:
            tech_factor = 1.0
        drag_scaler = round(drag_scaler * tech_factor, round_position)
        input_values.set_val(Aircraft.Wing.DRAG_FACTOR, [drag_scaler], 'unitless')

    # Variables required by GASP, but no default values are provided in GASP
    missing_vars = []
    if Aircraft.Wing.ZERO_LIFT_ANGLE not in input_values:
        missing_vars.append('ALPHL0')
    if Aircraft.Wing.ASPECT_RATIO not in input_values:
        missing_vars.append('AR')
    if Aircraft.HorizontalTail.ASPECT_RATIO not in input_values:
        missing_vars.append('ARHT')
    if Aircraft.VerticalTail.ASPECT_RATIO not in input_values:
        missing_vars.append('ARVT')
    if Aircraft.Design.PART25_STRUCTURAL_CATEGORY not in input_values:
        missing_vars.append('CATD')
    if Aircraft.Fuselage.PRESSURE_DIFFERENTIAL not in input_values:
        missing_vars.append('DELP')
    if Mission.Taxi.DURATION not in input_values:
        missing_vars.append('DELTT')
    if Aircraft.Wing.FLAP_DEFLECTION_LANDING not in input_values:
        missing_vars.append('DFLPLD')
    if Aircraft.Wing.FLAP_DEFLECTION_TAKEOFF not in input_values:
        missing_vars.append('DFLPTO')
    if Aircraft.Wing.SWEEP not in input_values:
        missing_vars.append('DLMC4')
    if Aircraft.Wing.INCIDENCE not in input_values:
        missing_vars.append('EYEW')
    if Aircraft.CrewPayload.Design.NUM_PASSENGERS not in input_values:
        missing_vars.append('PAX')
    if Aircraft.CrewPayload.Design.SEAT_PITCH_ECONOMY not in input_values:
        missing_vars.append('PS')
    if Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY not in input_values:
        missing_vars.append('SAB')
    if Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION not in input_values:
        missing_vars.append('SAH')
    if Aircraft.Wing.TAPER_RATIO not in input_values:
        missing_vars.append('SLM')
    if Aircraft.HorizontalTail.TAPER_RATIO not in input_values:
        missing_vars.append('SLMH')
    if Aircraft.VerticalTail.TAPER_RATIO not in input_values:
        missing_vars.append('SLMV')
    if Aircraft.HorizontalTail.THICKNESS_TO_CHORD not in input_values:
        missing_vars.append('TCHT')
    if Aircraft.Wing.THICKNESS_TO_CHORD_ROOT not in input_values:
        missing_vars.append('TCR')
    if Aircraft.Wing.THICKNESS_TO_CHORD_TIP not in input_values:
        missing_vars.append('TCT')
    if Aircraft.VerticalTail.THICKNESS_TO_CHORD not in input_values:
        missing_vars.append('TCVT')
    if Aircraft.Nacelle.MASS_SPECIFIC not in input_values:
        missing_vars.append('UWNAC')
    if Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS not in input_values:
        missing_vars.append('UWPAX')
    if Aircraft.Design.MAX_STRUCTURAL_SPEED not in input_values:
        missing_vars.append('VMLFSL')
    if Aircraft.Fuselage.AISLE_WIDTH not in input_values:
        missing_vars.append('WAS')
    if Aircraft.Fuselage.SEAT_WIDTH_ECONOMY not in input_values:
        missing_vars.append('WS')
    if Aircraft.LandingGear.MAIN_GEAR_LOCATION not in input_values:
        missing_vars.append('YMG')
    if Aircraft.Engine.WING_LOCATIONS not in input_values:
        missing_vars.append('YP')
    if Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION not in input_values:
        missing_vars.append('SAH')
    if len(missing_vars) > 0:
        raise RuntimeError(
            f'The following variables are required but are not provided:\n {missing_vars}'
        )

    vehicle_data['input_values'] = input_values
    return vehicle_data


def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
    """Handles variables that are affected by the values of others."""
    input_values: NamedValues = vehicle_data['input_values']

    for var_name in flops_scaler_variables:
        update_flops_scaler_variables(var_name, input_values)

    # TODO TWR should be checked for and a comment added that T/W ratio should be constrained to the
    # value found in the input file - TWR != Aircraft.Design.THRUST_RATIO!!!!
    # TWR <= 0 is not valid in Aviary (parametric variation)
    # if Aircraft.Design.THRUST_TO_WEIGHT_RATIO in input_values:
    #     if input_values.get_val(Aircraft.Design.THRUST_TO_WEIGHT_RATIO)[0] <= 0:
    #         input_values.delete(Aircraft.Design.THRUST_TO_WEIGHT_RATIO)

    # WSR
    # Additional mass fraction scaler set to zero to not add mass twice
    if Aircraft.Engine.ADDITIONAL_MASS_FRACTION in input_values:
        if input_values.get_val(Aircraft.Engine.ADDITIONAL_MASS_FRACTION)[0] >= 1:
            input_values.set_val(
                Aircraft.Engine.ADDITIONAL_MASS,
                input_values.get_val(Aircraft.Engine.ADDITIONAL_MASS_FRACTION),
                'lbm',
            )
            input_values.set_val(Aircraft.Engine.ADDITIONAL_MASS_FRACTION, [0.0])

    # Miscellaneous propulsion mass trigger point 1 instead of 5
    if Aircraft.Propulsion.MISC_MASS_SCALER in input_values:
        if input_values.get_val(Aircraft.Propulsion.MISC_MASS_SCALER)[0] >= 1:
            input_values.set_val(
                Aircraft.Propulsion.TOTAL_MISC_MASS,
                input_values.get_val(Aircraft.Propulsion.MISC_MASS_SCALER),
                'lbm',
            )
            input_values.set_val(Aircraft.Propulsion.MISC_MASS_SCALER, [0.0])

    if Aircraft.Fuel.DENSITY in input_values:
        # Interpret value equivalently to FULDEN (FLOPS fuel density ratio relative to jet fuel 6.7 lbm/galUS) and convert to an absolute fuel density)
        input_values.set_val(
            Aircraft.Fuel.DENSITY,
            [6.7 * input_values.get_val(Aircraft.Fuel.DENSITY, 'lbm/galUS')[0]],
            'lbm/galUS',
        )
    # else: not required as jet fuel is assumed and default value in metadata is 6.7

    if Aircraft.Fuel.WING_FUEL_MASS_CAPACITY in input_values:
        if input_values.get_val(Aircraft.Fuel.WING_FUEL_MASS_CAPACITY, 'lbm')[0] < 50:
            # Interpret value equivalently to FWMAX = wing_fuel_fraction * fuel_density * 2/3
            FWMAX = input_values.get_val(Aircraft.Fuel.WING_FUEL_MASS_CAPACITY, 'lbm')[0]
            if FWMAX < 0.0:
                FWMAX = 23.0
            if Aircraft.Fuel.DENSITY in input_values:
                FULDEN = input_values.get_val(Aircraft.Fuel.DENSITY, 'lbm/ft**3')[0]
            else:
                FULDEN = wrapped_convert_units(
                    (
                        CoreMetaData[Aircraft.Fuel.DENSITY]['default_value'],
                        CoreMetaData[Aircraft.Fuel.DENSITY]['units'],
                    ),
                    'lbm/ft**3',
                )
                # FULDEN = 50.12 lbm/ft**3 = 6.7 lbm/galUS
            input_values.set_val(
                Aircraft.Fuel.WING_FUEL_FRACTION, [FWMAX / (FULDEN * (2 / 3))], 'unitless'
            )
            input_values.delete(Aircraft.Fuel.WING_FUEL_MASS_CAPACITY)

    # Set detailed wing flag if model supports it
    if Aircraft.Wing.INPUT_STATION_DISTRIBUTION in input_values:
        input_values.set_val(Aircraft.Wing.DETAILED_WING, [True])

    if Mission.Landing.LIFT_COEFFICIENT_MAX not in input_values:
        # TODO revisit this once CLAPP is added to metadata and is no longer skipped by fortran_to_aviary
        unused_values = vehicle_data['unused_values']
        try:
            CLAPP = unused_values.get_item(find_name(unused_values, 'TOLIN.CLAPP'))[0][0]
            CLLDM = 1.69 * CLAPP
        except KeyError:
            CLLDM = 3.0
        input_values.set_val(Mission.Landing.LIFT_COEFFICIENT_MAX, [CLLDM])

    design_type, design_units = input_values.get_item(Aircraft.Design.TYPE)
    if design_type[0] == 0:
        input_values.set_val(Aircraft.Design.TYPE, ['transport'], design_units)

        if Aircraft.Fuselage.LENGTH in input_values:
            input_values.set_val(Aircraft.Fuselage.SIMPLE_LAYOUT, [True], 'unitless')
        else:
            input_values.set_val(Aircraft.Fuselage.SIMPLE_LAYOUT, [False], 'unitless')
    elif design_type[0] == 3:
        input_values.set_val(Aircraft.Design.TYPE, ['BWB'], design_units)

        # BWB always have detailed wing.
        input_values.set_val(Aircraft.Wing.DETAILED_WING, [True])
        if Aircraft.Wing.INPUT_STATION_DISTRIBUTION in input_values:
            input_station_distribution = input_values.get_val(
                Aircraft.Wing.INPUT_STATION_DISTRIBUTION
            )
            input_station_distribution = [0.0] + input_station_distribution
            input_values.set_val(
                Aircraft.Wing.INPUT_STATION_DISTRIBUTION, input_station_distribution
            )
            n_dist = len(input_station_distribution)
            chord_per_semispan_distribution = input_values.get_val(
                Aircraft.Wing.CHORD_PER_SEMISPAN_DISTRIBUTION
            )
            chord_per_semispan_distribution = [-1.0] + chord_per_semispan_distribution[
                0 : n_dist - 1
            ]
            input_values.set_val(
                Aircraft.Wing.CHORD_PER_SEMISPAN_DISTRIBUTION, chord_per_semispan_distribution
            )
            load_path_sweep_distribution = input_values.get_val(
                Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION, 'deg'
            )
            load_path_sweep_distribution = [0.0] + load_path_sweep_distribution[0 : n_dist - 2]
            input_values.set_val(
                Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION, load_path_sweep_distribution, 'deg'
            )
            thickness_to_chord_distribution = input_values.get_val(
                Aircraft.Wing.THICKNESS_TO_CHORD_DISTRIBUTION
            )
            thickness_to_chord_distribution = [-1.0] + thickness_to_chord_distribution[
                0 : n_dist - 1
            ]
            input_values.set_val(
                Aircraft.Wing.THICKNESS_TO_CHORD_DISTRIBUTION, thickness_to_chord_distribution
            )
            input_values.set_val(Aircraft.BWB.DETAILED_WING_PROVIDED, [True])
        else:
            # For BWB, if detail wing is not provided, initialize it to [0, 0.5, 1]. See doc page for detail.
            input_values.set_val(Aircraft.BWB.DETAILED_WING_PROVIDED, [False])
            input_values.set_val(Aircraft.Wing.INPUT_STATION_DISTRIBUTION, [0.0, 0.5, 1.0])

        if (
            Aircraft.Fuselage.LENGTH in input_values
            and Aircraft.BWB.PASSENGER_LEADING_EDGE_SWEEP in input_values
        ):
            if (
                input_values.get_val(Aircraft.Fuselage.LENGTH, 'ft')[0] > 0.0
                and input_values.get_val(Aircraft.BWB.PASSENGER_LEADING_EDGE_SWEEP, 'deg')[0] > 0.0
            ):
                input_values.set_val(Aircraft.Fuselage.SIMPLE_LAYOUT, [True], 'unitless')
            else:
                input_values.set_val(Aircraft.Fuselage.SIMPLE_LAYOUT, [False], 'unitless')
        else:
            input_values.set_val(Aircraft.Fuselage.SIMPLE_LAYOUT, [False], 'unitless')

        if Aircraft.Engine.SCALED_SLS_THRUST in input_values:
            # This is a design variable. So, first entry is the initial value
            thrust = input_values.get_val(Aircraft.Engine.SCALED_SLS_THRUST, 'lbf')[0]
            input_values.set_val(Aircraft.Engine.SCALED_SLS_THRUST, [thrust], 'lbf')

        if Aircraft.Fuselage.HEIGHT_TO_WIDTH_RATIO not in input_values:
            if Aircraft.Wing.THICKNESS_TO_CHORD in input_values:
                wing_tc = input_values.get_val(Aircraft.Wing.THICKNESS_TO_CHORD, 'unitless')[0]
                input_values.set_val(Aircraft.Fuselage.HEIGHT_TO_WIDTH_RATIO, [wing_tc], 'unitless')
                if verbosity > Verbosity.BRIEF:
                    warnings.warn(
                        'Set Aircraft.Fuselage.HEIGHT_TO_WIDTH_RATIO to '
                        'Aircraft.Fuselage.THICKNESS_TO_CHORD.'
                    )

        if Aircraft.Fuel.WING_FUEL_FRACTION not in input_values:
            # Interpret value equivalently to FWMAX = wing_fuel_fraction * fuel_density * 2/3
            FWMAX = 23  # the default
            if Aircraft.Fuel.DENSITY in input_values:
                FULDEN = input_values.get_val(Aircraft.Fuel.DENSITY, 'lbm/ft**3')[0]
            else:
                FULDEN = wrapped_convert_units(
                    (
                        CoreMetaData[Aircraft.Fuel.DENSITY]['default_value'],
                        CoreMetaData[Aircraft.Fuel.DENSITY]['units'],
                    ),
                    'lbm/ft**3',
                )
                # FULDEN = 50.1194909  # lbm/ft**3 or 6.7 lbm/galUS
            input_values.set_val(
                Aircraft.Fuel.WING_FUEL_FRACTION, [FWMAX / (FULDEN * (2 / 3))], 'unitless'
            )

        # For BWB, wing area is always computed
        if Aircraft.Wing.AREA in input_values:
            input_values.delete(Aircraft.Wing.AREA)
        if Aircraft.Wing.ASPECT_RATIO in input_values:
            input_values.delete(Aircraft.Wing.ASPECT_RATIO)

        if (
            Aircraft.Engine.SCALED_SLS_THRUST in input_values
            and Aircraft.Engine.REFERENCE_SLS_THRUST in input_values
        ):
            ref_thrust = input_values.get_val(Aircraft.Engine.REFERENCE_SLS_THRUST, 'lbf')[0]
            scaled_thrust = input_values.get_val(Aircraft.Engine.SCALED_SLS_THRUST, 'lbf')[0]
            if scaled_thrust <= 0:
                if verbosity >= Verbosity.BRIEF:
                    warnings.warn(
                        'Aircraft.Engine.REFERENCE_SLS_THRUST must be positive '
                        f'but you have {scaled_thrust}'
                    )
            else:
                engine_scale_factor = scaled_thrust / ref_thrust
                input_values.set_val(
                    Aircraft.Engine.SCALE_FACTOR, [engine_scale_factor], 'unitless'
                )
    else:
        raise ValueError(
            'Aviary currently only supports values of IFITE = 0 ("transport") or 3 ("bwb"), '
            f'the target file uses IFITE = {design_type[0]} .'
        )

    if (
        Aircraft.HorizontalTail.THICKNESS_TO_CHORD not in input_values
        or input_values.get_val(Aircraft.HorizontalTail.THICKNESS_TO_CHORD, 'unitless')[0] == 0
    ):
        if Aircraft.Wing.THICKNESS_TO_CHORD in input_values:
            wing_tc = input_values.get_val(Aircraft.Wing.THICKNESS_TO_CHORD, 'unitless')[0]
            input_values.set_val(Aircraft.HorizontalTail.THICKNESS_TO_CHORD, [wing_tc], 'unitless')
            if verbosity > Verbosity.BRIEF:
                warnings.warn(
                    'Aircraft.HorizontalTail.THICKNESS_TO_CHORD is not defined. Use '
                    'Aircraft.Wing.THICKNESS_TO_CHORD.'
                )

    if (Aircraft.VerticalTail.THICKNESS_TO_CHORD not in input_values) or (
        input_values.get_val(Aircraft.VerticalTail.THICKNESS_TO_CHORD, 'unitless')[0] == 0
    ):
        if Aircraft.Wing.THICKNESS_TO_CHORD in input_values:
            wing_tc = input_values.get_val(Aircraft.Wing.THICKNESS_TO_CHORD, 'unitless')[0]
            input_values.set_val(Aircraft.VerticalTail.THICKNESS_TO_CHORD, [wing_tc], 'unitless')
            if verbosity > Verbosity.BRIEF:
                warnings.warn(
                    'Aircraft.VerticalTail.THICKNESS_TO_CHORD is not defined. Use '
                    'Aircraft.Wing.THICKNESS_TO_CHORD.'
                )

    if (
        Aircraft.HorizontalTail.TAPER_RATIO not in input_values
        or input_values.get_val(Aircraft.HorizontalTail.TAPER_RATIO)[0] < 0.0
    ):
        if Aircraft.Wing.TAPER_RATIO in input_values:
            TR = input_values.get_val(Aircraft.Wing.TAPER_RATIO)[0]
            input_values.set_val(Aircraft.HorizontalTail.TAPER_RATIO, [TR])

    if (
        Aircraft.VerticalTail.TAPER_RATIO not in input_values
        or input_values.get_val(Aircraft.VerticalTail.TAPER_RATIO)[0] < 0.0
    ):
        if Aircraft.HorizontalTail.TAPER_RATIO in input_values:
            TRHT = input_values.get_val(Aircraft.HorizontalTail.TAPER_RATIO)[0]
            input_values.set_val(Aircraft.VerticalTail.TAPER_RATIO, [TRHT])

    if (
        Aircraft.HorizontalTail.SWEEP not in input_values
        or input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0] < -90.0
    ):
        if Aircraft.Wing.SWEEP in input_values:
            SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
            input_values.set_val(Aircraft.HorizontalTail.SWEEP, [SWEEP], 'deg')

    if (
        Aircraft.VerticalTail.SWEEP not in input_values
        or input_values.get_val(Aircraft.VerticalTail.SWEEP, units='deg')[0] < -90.0
    ):
        if Aircraft.HorizontalTail.SWEEP in input_values:
            SWPHT = input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0]
            input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWPHT], 'deg')
        elif Aircraft.Wing.SWEEP in input_values:
            SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
            input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWEEP], 'deg')

    if (
        Aircraft.HorizontalTail.ASPECT_RATIO not in input_values
        or input_values.get_val(Aircraft.HorizontalTail.ASPECT_RATIO)[0] < 0
    ):
        if Aircraft.Wing.ASPECT_RATIO in input_values:
            AR = input_values.get_val(Aircraft.Wing.ASPECT_RATIO)[0]
            input_values.set_val(Aircraft.HorizontalTail.ASPECT_RATIO, [AR], 'unitless')

    if (
        Aircraft.VerticalTail.ASPECT_RATIO not in input_values
        or input_values.get_val(Aircraft.VerticalTail.ASPECT_RATIO)[0] < 0
    ):
        if Aircraft.HorizontalTail.ASPECT_RATIO in input_values:
            ARHT = input_values.get_val(Aircraft.HorizontalTail.ASPECT_RATIO)[0]
            input_values.set_val(Aircraft.VerticalTail.ASPECT_RATIO, [ARHT / 2.0], 'unitless')

    if Aircraft.CrewPayload.Design.NUM_BUSINESS_CLASS in input_values and design_type[0] != 3:
        if input_values.get_val(Aircraft.CrewPayload.Design.NUM_BUSINESS_CLASS)[0] > 0:
            if input_values.get_val(Aircraft.Fuselage.SIMPLE_LAYOUT) == False:
                cmts.append(
                    '# business class seats are included. Fuselage layout may be different '
                    'from FLOPS.'
                )
                if verbosity >= Verbosity.BRIEF:
                    print(
                        '# business class seats are included. Fuselage layout may be different '
                        'from FLOPS.'
                    )

    # if mission-wide fuel flow factor provided, combine into sub and supersonic fuel flow factors
    fact_name = find_name(vehicle_data['unused_values'], 'MISSIN.FACT')
    if fact_name in vehicle_data['unused_values']:
        FACT = vehicle_data['unused_values'].get_item(fact_name)[0][0]
        if Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER in input_values:
            sub_fuel_flow_fact = input_values.get_val(Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER)[0]
            input_values.set_val(
                Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER, [sub_fuel_flow_fact * FACT]
            )
        else:
            input_values.set_val(Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER, [FACT])
        if Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER in input_values:
            sup_fuel_flow_fact = input_values.get_val(Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER)[
                0
            ]
            input_values.set_val(
                Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER, [sup_fuel_flow_fact * FACT]
            )
        else:
            input_values.set_val(Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER, [FACT])
        vehicle_data['unused_values'].delete(fact_name)

    # These variables should be removed if they are zero.
    rem_list = [
        (Aircraft.Design.TOUCHDOWN_MASS_MAX, 'lbm'),
        (Aircraft.Fuselage.CABIN_AREA, 'ft**2'),
        (Aircraft.Fuselage.MAX_HEIGHT, 'ft'),
        (Aircraft.Fuselage.PASSENGER_COMPARTMENT_LENGTH, 'ft'),
        (Aircraft.Fuselage.LENGTH, 'ft'),
        (Aircraft.Fuselage.MAX_WIDTH, 'ft'),
        (Aircraft.Design.EMPTY_MASS, 'lbm'),
    ]
    for var in rem_list:
        try:
            val = input_values.get_val(var[0], var[1])[0]
            if val == 0.0:
                input_values.delete(var[0])
        except:
            pass

    # These variables should be removed if they are negative.
    rem_list = [
        (Aircraft.CrewPayload.BAGGAGE_MASS_PER_PASSENGER, 'lbm'),
    ]
    for var in rem_list:
        try:
            val = input_values.get_val(var[0], var[1])[0]
            if val < 0.0:
                input_values.delete(var[0])
        except:
            pass

    if design_type[0] != 3:
        input_values.delete(Aircraft.BWB.PASSENGER_LEADING_EDGE_SWEEP)

    vehicle_data['input_values'] = input_values
    return vehicle_data


def update_aviary_options(vehicle_data):
    """Special handling for variables that occurs for either legacy code."""
    input_values: NamedValues = vehicle_data['input_values']

    try:
        ref_thrust = input_values.get_val(Aircraft.Engine.REFERENCE_SLS_THRUST, 'lbf')[0]
        ref_thrust = float(ref_thrust)
        input_values.set_val(Aircraft.Engine.REFERENCE_SLS_THRUST, [ref_thrust], 'lbf')
    except KeyError:
        pass

    vehicle_data['input_values'] = input_values
    return vehicle_data


def update_flops_scaler_variables(var_name, input_values: NamedValues):
    """
    The following parameters are used to modify or override
    internally computed weights and areas for various components as follows:
    < 0., negative of starting weight which will be modified
    as appropriate during optimization or parametric variation, lb or ft**2
    = 0., no weight for that component
    > 0. but < 5., scale factor applied to internally computed weight or area
    > 5., actual fixed weight for component, lb or ft**2
    Same rules also applied to various other FLOPS scaler parameters.
    """
    scaler_name = var_name + '_scaler'
    if scaler_name not in input_values:
        return
    scaler_value = input_values.get_val(scaler_name)[0]
    if scaler_value <= 0:
        input_values.delete(scaler_name)
    elif scaler_value < 5:
        return
    elif scaler_value > 5:
        if 'area' in var_name.lower():
            input_values.set_val(var_name, [scaler_value], 'ft**2')
        else:
            input_values.set_val(var_name, [scaler_value], 'lbm')
        input_values.delete(scaler_name)


def update_gasp_scaler_variables(var_name, input_values: NamedValues):
    """
    The following parameters are used to modify or override
    internally computed weights and areas for various components as follows:
    < 0., negative of starting weight which will be modified
    as appropriate during optimization or parametric variation, lb or ft**2
    = 0., no weight/area for that component
    > 0. but < 10., scale factor applied to internally computed weight
    > 10., actual fixed weight for component, lb or ft**2
    Same rules also applied to various other FLOPS scaler parameters.
    """
    scaler_name = var_name + '_scaler'
    if scaler_name not in input_values:
        return
    scaler_value = input_values.get_val(scaler_name)[0]
    if scaler_value <= 0:
        input_values.delete(scaler_name)
    elif scaler_value < 10:
        return
    elif scaler_value > 10:
        if 'area' in var_name.lower():
            input_values.set_val(var_name, [scaler_value], 'ft**2')
        else:
            input_values.set_val(var_name, [scaler_value], 'lbm')
        input_values.delete(scaler_name)


# list storing information on Aviary variables that are split from single
# FLOPS variables that use the same value-based branching behavior
flops_scaler_variables = [
    Aircraft.AirConditioning.MASS,
    Aircraft.AntiIcing.MASS,
    Aircraft.APU.MASS,
    Aircraft.Avionics.MASS,
    Aircraft.Canard.MASS,
    Aircraft.Canard.WETTED_AREA,
    Aircraft.CrewPayload.CARGO_CONTAINER_MASS,
    Aircraft.CrewPayload.FLIGHT_CREW_MASS,
    Aircraft.CrewPayload.CABIN_CREW_MASS,
    Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
    Aircraft.Design.EMPTY_MASS_MARGIN,
    Aircraft.Electrical.MASS,
    Aircraft.Engine.THRUST_REVERSERS_MASS,
    Aircraft.Fins.MASS,
    Aircraft.Fuel.FUEL_SYSTEM_MASS,
    Aircraft.Fuel.UNUSABLE_FUEL_MASS,
    Aircraft.Furnishings.MASS,
    Aircraft.Fuselage.MASS,
    Aircraft.Fuselage.WETTED_AREA,
    Aircraft.HorizontalTail.MASS,
    Aircraft.HorizontalTail.WETTED_AREA,
    Aircraft.Hydraulics.MASS,
    Aircraft.Instruments.MASS,
    Aircraft.LandingGear.MAIN_GEAR_MASS,
    Aircraft.LandingGear.NOSE_GEAR_MASS,
    Aircraft.Nacelle.MASS,
    Aircraft.Nacelle.WETTED_AREA,
    Aircraft.Propulsion.TOTAL_ENGINE_OIL_MASS,
    Aircraft.VerticalTail.MASS,
    Aircraft.VerticalTail.WETTED_AREA,
    Aircraft.Wing.MASS,
    Aircraft.Wing.SHEAR_CONTROL_MASS,
    Aircraft.Wing.SURFACE_CONTROL_MASS,
    Aircraft.Wing.WETTED_AREA,
]

# GASP variables that use the same value-based branching behavior
gasp_scaler_variables = [
    Aircraft.Fuselage.WETTED_AREA,
]

initialization_guesses = {
    # initialization_guesses is a dictionary that contains values used to
    # initialize the trajectory
    'actual_takeoff_mass': 0,
    'rotation_mass': 0,
    'fuel_burn_per_passenger_mile': 0,
    'cruise_mass_final': 0,
    'flight_duration': 0,
    'time_to_climb': 0,
    'climb_range': 0,
    'reserves': 0,
}


def _setup_F2A_parser(parser):
    """
    Set up the subparser for the Fortran_to_aviary tool.

    Parameters
    ----------
    parser : argparse subparser
        The parser we're adding options to.
    """
    parser.add_argument(
        'input_deck',
        type=str,
        nargs=1,
        help='Filename of vehicle input deck, including partial or complete path.',
    )
    parser.add_argument(
        'output_file',
        type=str,
        nargs='?',
        help='Filename for converted input deck, including partial or complete path.',
    )
    parser.add_argument(
        '-f',
        '--format',
        type=LegacyCode,
        help='Name of the legacy code the deck originated from',
        choices=set(LegacyCode),
        required=True,
    )
    parser.add_argument(
        '--force',
        action='store_true',
        help='Allow overwriting existing output files',
    )
    parser.add_argument(
        '-v',
        '--verbosity',
        type=int,
        choices=Verbosity.values(),
        default=1,
        help='Set level of print statements',
    )


def _exec_F2A(args, user_args):
    # check if args.input_deck is a list, if so, use the first element
    if isinstance(args.input_deck, list):
        args.input_deck = args.input_deck[0]
    filepath = args.input_deck

    # convert verbosity from int to enum
    verbosity = Verbosity(args.verbosity)

    fortran_to_aviary(filepath, args.format, args.output_file, args.force, verbosity)
