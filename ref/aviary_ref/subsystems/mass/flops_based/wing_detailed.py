import warnings
import numpy as np
import openmdao.api as om
from openmdao.components.interp_util.interp import InterpND

from aviary_ref.variable_info.enums import Verbosity
from aviary_ref.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
from aviary_ref.variable_info.variables import Aircraft, Settings


def load_intensity_by_factor(load_dist_factor, intn_stations):
    """
    Calculate load intensity at wing integration stations for the given load_dist_factor.

    Parameters:
    load_dist_factor (float): 0 or 1 <= load_dist_factor <= 3.
        1.0 : triangular distribution
        2.0 : elliptical distribution (default)
        3.0 : rectangular distribution
        1.0-2.0 : blend of triangular and elliptical
        2.0-3.0 : blend of elliptical and rectangular
    intn_stations (array): integration stations

    Note: In FLOPS, load_dist_factor can be 0 in which case load intensities are computed
          based on input pressure distribution.
    """
    if load_dist_factor == 1:
        load_intensity = 1.0 - intn_stations
    elif load_dist_factor == 2:
        load_intensity = np.sqrt(1.0 - intn_stations**2)
    elif load_dist_factor == 3:
        load_intensity = np.ones(len(intn_stations))
    elif 1 < load_dist_factor < 2:
        load_intensity = (load_dist_factor - 1.0) * np.sqrt(1.0 - intn_stations**2) + (
            2.0 - load_dist_factor
        ) * (1.0 - intn_stations)
    elif 2 < load_dist_factor < 3:
        load_intensity = (3.0 - load_dist_factor) * np.sqrt(1.0 - intn_stations**2) + (
            load_dist_factor - 2.0
        ) * np.ones(len(intn_stations))
    else:
        raise om.AnalysisError(
            f'{load_dist_factor} is not a valid value for '
            f'{Aircraft.Wing.LOAD_DISTRIBUTION_CONTROL}, it must be between 1 and 3 (inclusive).'
        )
    return load_intensity


class DetailedWingBendingFact(om.ExplicitComponent):
    """
    Computation of wing bending factor and engine inertia relief factor
    used for FLOPS-based detailed wing mass estimation.

    If one or zero wing-mounted engines are present, it is assumed there is no engine
    inertial relief factor (i.e. the single engine is mounted at the wing root)
    """

    # Basically, Engine.WING_LOCATIONS is ignored if there are one or fewer wing engines

    def initialize(self):
        add_aviary_option(self, Aircraft.Engine.NUM_ENGINES)
        add_aviary_option(self, Aircraft.Engine.NUM_WING_ENGINES)
        add_aviary_option(self, Aircraft.Propulsion.TOTAL_NUM_WING_ENGINES)
        add_aviary_option(self, Aircraft.Wing.INPUT_STATION_DISTRIBUTION)
        add_aviary_option(self, Aircraft.Wing.LOAD_DISTRIBUTION_CONTROL)
        add_aviary_option(self, Aircraft.Wing.NUM_INTEGRATION_STATIONS)

    def setup(self):
        input_station_distribution = self.options[Aircraft.Wing.INPUT_STATION_DISTRIBUTION]
        num_input_stations = len(input_station_distribution)
        total_num_wing_engines = self.options[Aircraft.Propulsion.TOTAL_NUM_WING_ENGINES]
        num_engine_type = len(self.options[Aircraft.Engine.NUM_ENGINES])

        add_aviary_input(
            self,
            Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION,
            shape=num_input_stations - 1,
            units='deg',
        )
        add_aviary_input(
            self,
            Aircraft.Wing.THICKNESS_TO_CHORD_DISTRIBUTION,
            shape=num_input_stations,
            units='unitless',
        )
        add_aviary_input(
            self,
            Aircraft.Wing.CHORD_PER_SEMISPAN_DISTRIBUTION,
            shape=num_input_stations,
            units='unitless',
        )
        add_aviary_input(self, Aircraft.Design.GROSS_MASS, units='lbm')
        add_aviary_input(self, Aircraft.Engine.POD_MASS, shape=num_engine_type, units='lbm')
        add_aviary_input(self, Aircraft.Wing.ASPECT_RATIO, units='unitless')
        add_aviary_input(self, Aircraft.Wing.ASPECT_RATIO_REFERENCE, units='unitless')
        add_aviary_input(self, Aircraft.Wing.STRUT_BRACING_FACTOR, units='unitless')
        add_aviary_input(self, Aircraft.Wing.AEROELASTIC_TAILORING_FACTOR, units='unitless')

        if total_num_wing_engines > 1:
            add_aviary_input(
                self,
                Aircraft.Engine.WING_LOCATIONS,
                shape=int(total_num_wing_engines / 2),
                units='unitless',
            )
        else:
            add_aviary_input(self, Aircraft.Engine.WING_LOCATIONS, units='unitless')

        add_aviary_input(self, Aircraft.Wing.THICKNESS_TO_CHORD, units='unitless')
        add_aviary_input(self, Aircraft.Wing.THICKNESS_TO_CHORD_REFERENCE, units='unitless')

        add_aviary_output(self, Aircraft.Wing.BENDING_MATERIAL_FACTOR, units='unitless')
        add_aviary_output(self, Aircraft.Wing.ENG_POD_INERTIA_FACTOR, units='unitless')

    def setup_partials(self):
        # See issue #1188. Analytic derivs will be challenging, but possible.
        self.declare_partials('*', '*', method='cs')

    def compute(self, inputs, outputs):
        input_station_distribution = self.options[Aircraft.Wing.INPUT_STATION_DISTRIBUTION]
        inp_stations = np.array(input_station_distribution)
        num_integration_stations = self.options[Aircraft.Wing.NUM_INTEGRATION_STATIONS]
        num_wing_engines = self.options[Aircraft.Engine.NUM_WING_ENGINES]
        num_engine_type = len(num_wing_engines)

        load_path_sweep = inputs[Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION]
        thickness_to_chord = inputs[Aircraft.Wing.THICKNESS_TO_CHORD_DISTRIBUTION]
        chord = inputs[Aircraft.Wing.CHORD_PER_SEMISPAN_DISTRIBUTION]
        engine_locations = inputs[Aircraft.Engine.WING_LOCATIONS]
        gross_mass = inputs[Aircraft.Design.GROSS_MASS]
        # NOTE pod mass assumed the same for wing/non-wing mounted engines, only using
        #      wing mounted pods here
        pod_mass = inputs[Aircraft.Engine.POD_MASS]
        fstrt = inputs[Aircraft.Wing.STRUT_BRACING_FACTOR]
        faert = inputs[Aircraft.Wing.AEROELASTIC_TAILORING_FACTOR]

        ar = inputs[Aircraft.Wing.ASPECT_RATIO]
        arref = inputs[Aircraft.Wing.ASPECT_RATIO_REFERENCE]
        tc = inputs[Aircraft.Wing.THICKNESS_TO_CHORD]
        tcref = inputs[Aircraft.Wing.THICKNESS_TO_CHORD_REFERENCE]

        # NOTE changes to FLOPS routines based on LEAPS1 improved multiengine effort
        # odd numbers of wing mounted engines assume the "odd" engine out is not on the
        # wing and is ignored
        # See issue #1189. There are also no checks that number of engine locations is consistent with
        # half of number of wing mounted engines, which should get added to preprocessor

        target_dy = (inp_stations[-1] - inp_stations[0]) / num_integration_stations
        stations_per_section = np.floor(np.abs(np.diff(inp_stations) / target_dy + 0.5))
        stations_per_section[-1] += 1  # add one more point to the last section
        integration_stations = np.empty(0, dtype=chord.dtype)
        sweep_int_stations = np.empty(0, dtype=chord.dtype)

        for i, val in enumerate(inp_stations[1:]):
            endpoint = i == len(inp_stations) - 2
            per_section = int(stations_per_section[i])
            integration_stations = np.append(
                integration_stations,
                np.linspace(inp_stations[i], val, per_section, endpoint=endpoint),
            )
            sweep_int_stations = np.append(
                sweep_int_stations, load_path_sweep[i] * np.ones(per_section)
            )

        dy = np.diff(integration_stations)
        avg_sweep = np.sum(
            (dy[1:] + 2.0 * integration_stations[1:-1]) * dy[1:] * sweep_int_stations[1:-1]
        )

        load_distribution_factor = self.options[Aircraft.Wing.LOAD_DISTRIBUTION_CONTROL]
        load_intensity = load_intensity_by_factor(load_distribution_factor, integration_stations)

        chord_interp = InterpND(
            method='slinear', points=(inp_stations), x_interp=integration_stations
        )
        chord_int_stations = chord_interp.evaluate_spline(chord, compute_derivative=False)
        if arref > 0.0:
            # Scale
            chord_int_stations *= arref / ar

        del_load = (
            dy
            * (
                chord_int_stations[:-1] * (2 * load_intensity[:-1] + load_intensity[1:])
                + chord_int_stations[1:] * (2 * load_intensity[1:] + load_intensity[:-1])
            )
            / 6
        )

        el = np.sum(del_load)

        del_moment = (
            dy**2
            * (
                chord_int_stations[:-1] * (load_intensity[:-1] + load_intensity[1:])
                + chord_int_stations[1:] * (3 * load_intensity[1:] + load_intensity[:-1])
            )
            / 12
        )

        load_path_length = np.flip(
            np.append(np.zeros(1, chord.dtype), np.cumsum(np.flip(del_load)[:-1]))
        )
        csw = 1.0 / np.cos(sweep_int_stations[:-1] * np.pi / 180.0)
        emi = (del_moment + dy * load_path_length) * csw
        # em = np.sum(emi)

        tc_interp = InterpND(method='slinear', points=(inp_stations), x_interp=integration_stations)
        tc_int_stations = tc_interp.evaluate_spline(thickness_to_chord, compute_derivative=False)
        if tcref > 0.0:
            tc_int_stations *= tc / tcref

        total_moment = np.cumsum(emi[::-1])[::-1]

        bma = total_moment * csw / (chord_int_stations[:-1] * tc_int_stations[:-1])

        pm = np.sum((bma[:-1] + bma[1:]) * dy[:-1] * 0.5)

        # s = np.sum((chord_int_stations[:-1] + chord_int_stations[1:]) * dy * 0.5)

        btb = 4 * pm / el

        sa = np.sin(avg_sweep * np.pi / 180.0)
        if ar <= 5.0:
            caya = 0.0
        else:
            caya = ar - 5.0

        bt = btb / (
            ar ** (0.25 * fstrt)
            * (1.0 + (0.5 * faert - 0.16 * fstrt) * sa**2 + 0.03 * caya * (1.0 - 0.5 * faert) * sa)
        )

        outputs[Aircraft.Wing.BENDING_MATERIAL_FACTOR] = bt

        inertia_factor = np.zeros(num_engine_type, dtype=chord.dtype)
        eel = np.zeros(len(dy) + 1, dtype=chord.dtype)

        # idx is the index where this engine type begins in location list
        idx = 0
        # i is the counter for which engine model we are checking
        for i in range(num_engine_type):
            # idx2 is the last index for the range of engines of this type
            idx2 = idx + int(num_wing_engines[i] / 2)
            if num_wing_engines[i] > 1:
                # engine locations must be in order from wing root to tip
                eng_loc = np.sort(engine_locations[idx:idx2])

            else:
                continue

            if eng_loc[0] <= integration_stations[0]:
                inertia_factor[i] = 1.0

            elif eng_loc[0] >= integration_stations[-1]:
                inertia_factor[i] = 0.84

            else:
                eel[:] = 0.0
                # Find all points on integration station before first engine
                loc = np.where(integration_stations < eng_loc[0])[0]
                eel[loc] = 1.0

                delme = dy * eel[1:]

                delme[loc[-1]] = eng_loc[0] - integration_stations[loc[-1]]

                eem = delme * csw
                eem = np.cumsum(eem[::-1])[::-1]

                ea = eem * csw / (chord_int_stations[:-1] * tc_int_stations[:-1])

                bte = 8 * np.sum((ea[:-1] + ea[1:]) * dy[:-1] * 0.5)

                inertia_factor_i = 1 - bte / bt[0] * pod_mass[i] / gross_mass[0]
                # avoid passing an array into specific index of inertia_factor
                inertia_factor[i] = inertia_factor_i

            # increment idx to next engine set
            idx = idx2

        # LEAPS updated multiengine routine applies each engine pod's factor
        # multiplicatively, and enforces a minimum bound of 0.84
        inertia_factor_prod = np.prod(inertia_factor)
        if inertia_factor_prod < 0.84:
            inertia_factor_prod = 0.84

        outputs[Aircraft.Wing.ENG_POD_INERTIA_FACTOR] = inertia_factor_prod


class BWBDetailedWingBendingFact(om.ExplicitComponent):
    """
    Computation of wing bending factor and engine inertia relief factor
    used for FLOPS-based detailed wing mass estimation for BWB aircraft.

    This is basically the same as DetailedWingBendingFact except the following:

      - Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION is replaced by BWB_LOAD_PATH_SWEEP_DISTRIBUTION
      - Aircraft.Wing.THICKNESS_TO_CHORD_DISTRIBUTION is replaced by BWB_THICKNESS_TO_CHORD_DISTRIBUTION
      - Aircraft.Wing.CHORD_PER_SEMISPAN_DISTRIBUTION is replaced by BWB_CHORD_PER_SEMISPAN_DISTRIBUTION
    """

    # Basically, Engine.WING_LOCATIONS is ignored if there are one or fewer wing engines

    def initialize(self):
        add_aviary_option(self, Aircraft.BWB.WING_ROOT_INDEX)
        add_aviary_option(self, Aircraft.Engine.NUM_ENGINES)
        add_aviary_option(self, Aircraft.Engine.NUM_WING_ENGINES)
        add_aviary_option(self, Aircraft.Propulsion.TOTAL_NUM_WING_ENGINES)
        add_aviary_option(self, Aircraft.Wing.INPUT_STATION_DISTRIBUTION)
        add_aviary_option(self, Aircraft.Wing.LOAD_DISTRIBUTION_CONTROL)
        add_aviary_option(self, Aircraft.Wing.NUM_INTEGRATION_STATIONS)
        add_aviary_option(self, Aircraft.BWB.DETAILED_WING_PROVIDED)
        add_aviary_option(self, Settings.VERBOSITY)

    def setup(self):
        input_station_distribution = self.options[Aircraft.Wing.INPUT_STATION_DISTRIBUTION]
        num_input_stations = len(input_station_distribution)
        root = self.options[Aircraft.BWB.WING_ROOT_INDEX]
        if root < 1:
            num_input_stations += 1

        total_num_wing_engines = self.options[Aircraft.Propulsion.TOTAL_NUM_WING_ENGINES]
        num_engine_type = len(self.options[Aircraft.Engine.NUM_ENGINES])

        self.add_input(
            'BWB_LOAD_PATH_SWEEP_DISTRIBUTION', shape=num_input_stations - 1, units='deg'
        )
        self.add_input(
            'BWB_THICKNESS_TO_CHORD_DISTRIBUTION', shape=num_input_stations, units='unitless'
        )
        self.add_input(
            'BWB_CHORD_PER_SEMISPAN_DISTRIBUTION', shape=num_input_stations, units='unitless'
        )
        add_aviary_input(self, Aircraft.Design.GROSS_MASS, units='lbm')
        add_aviary_input(self, Aircraft.Engine.POD_MASS, shape=num_engine_type, units='lbm')
        add_aviary_input(self, Aircraft.Wing.ASPECT_RATIO, units='unitless')
        add_aviary_input(self, Aircraft.Wing.ASPECT_RATIO_REFERENCE, units='unitless')
        add_aviary_input(self, Aircraft.Wing.STRUT_BRACING_FACTOR, units='unitless')
        add_aviary_input(self, Aircraft.Wing.AEROELASTIC_TAILORING_FACTOR, units='unitless')
        add_aviary_input(self, Aircraft.Wing.SPAN, units='ft')
        add_aviary_input(self, Aircraft.Fuselage.MAX_WIDTH, units='ft')

        if total_num_wing_engines > 1:
            add_aviary_input(
                self,
                Aircraft.Engine.WING_LOCATIONS,
                shape=int(total_num_wing_engines / 2),
                units='unitless',
            )
        else:
            add_aviary_input(self, Aircraft.Engine.WING_LOCATIONS, units='unitless')

        add_aviary_input(self, Aircraft.Wing.THICKNESS_TO_CHORD, units='unitless')
        add_aviary_input(self, Aircraft.Wing.THICKNESS_TO_CHORD_REFERENCE, units='unitless')

        add_aviary_output(self, Aircraft.Wing.BENDING_MATERIAL_FACTOR, units='unitless')
        add_aviary_output(self, Aircraft.Wing.ENG_POD_INERTIA_FACTOR, units='unitless')
        self.add_output('calculated_wing_area', units='ft**2')

    def setup_partials(self):
        # See issue #1188. Analytic derivs will be challenging, but possible.
        self.declare_partials('*', '*', method='cs')

    def compute(self, inputs, outputs):
        num_integration_stations = self.options[Aircraft.Wing.NUM_INTEGRATION_STATIONS]
        root = self.options[Aircraft.BWB.WING_ROOT_INDEX]

        width = inputs[Aircraft.Fuselage.MAX_WIDTH][0]
        wingspan = inputs[Aircraft.Wing.SPAN][0]
        rate_span = (wingspan - width) / wingspan

        input_station_dist = self.options[Aircraft.Wing.INPUT_STATION_DISTRIBUTION]

        if root < 1:
            bwb_input_station_dist = np.zeros(len(input_station_dist) + 1, dtype=width.dtype)
            bwb_input_station_dist[1:] = input_station_dist
            if not self.options[Aircraft.BWB.DETAILED_WING_PROVIDED]:
                bwb_input_station_dist[1] = width / 2.0
            else:
                bwb_input_station_dist = np.where(
                    bwb_input_station_dist <= 1.0,
                    bwb_input_station_dist * rate_span + width / wingspan,  # if x <= 1.0
                    bwb_input_station_dist + width / 2.0,  # else
                )
                bwb_input_station_dist[0] = 0.0
                bwb_input_station_dist[1] = width / 2.0

        else:
            bwb_input_station_dist = np.asarray(input_station_dist)

        inp_stations_mod = []
        for x in bwb_input_station_dist:
            if x > 1.0:
                inp_stations_mod.append(2 * x / wingspan)
            else:
                inp_stations_mod.append(x)
        inp_stations_mod = np.array(inp_stations_mod)

        if root == 0:
            # Remove prepended centerline for this calculation.
            # Otherwise, wing starts where the user specified.
            root = 1

        inp_stations_mod = inp_stations_mod[root:]

        load_path_sweep = inputs['BWB_LOAD_PATH_SWEEP_DISTRIBUTION']
        load_path_sweep_mod = np.array(load_path_sweep[root:])

        ar = inputs[Aircraft.Wing.ASPECT_RATIO][0]
        arref = inputs[Aircraft.Wing.ASPECT_RATIO_REFERENCE][0]
        ar_scale_factor = arref / ar
        if (
            ar_scale_factor == 0.0
        ):  # this could happen if Aircraft.Wing.ASPECT_RATIO is not input by user
            ar_scale_factor = 1.0

        chord = inputs['BWB_CHORD_PER_SEMISPAN_DISTRIBUTION']
        chord_mod = []
        for x in chord:
            if x > 5.0:
                chord_mod.append(2 * x / wingspan)
            else:
                chord_mod.append(x * ar_scale_factor)
        chord_mod = np.array(chord_mod)[root:]

        fstrt = inputs[Aircraft.Wing.STRUT_BRACING_FACTOR]
        faert = inputs[Aircraft.Wing.AEROELASTIC_TAILORING_FACTOR]

        thickness_to_chord = inputs['BWB_THICKNESS_TO_CHORD_DISTRIBUTION']
        tc = inputs[Aircraft.Wing.THICKNESS_TO_CHORD]
        tcref = inputs[Aircraft.Wing.THICKNESS_TO_CHORD_REFERENCE]
        thickness_to_chord_mod = thickness_to_chord[root:] * tc[0] / tcref[0]

        # NOTE changes to FLOPS routines based on LEAPS1 improved multiengine effort
        # odd numbers of wing mounted engines assume the "odd" engine out is not on the
        # wing and is ignored
        # See issue #1189. There are also no checks that number of engine locations is consistent with
        # half of number of wing mounted engines, which should get added to preprocessor

        target_dy = (inp_stations_mod[-1] - inp_stations_mod[0]) / num_integration_stations
        stations_per_section = np.floor(np.abs(np.diff(inp_stations_mod) / target_dy + 0.5))
        stations_per_section[-1] += 1  # add one more point to the last section
        integration_stations = np.empty(0, dtype=chord.dtype)
        sweep_int_stations = np.empty(0, dtype=chord.dtype)

        for i, val in enumerate(inp_stations_mod[1:]):
            endpoint = i == len(inp_stations_mod) - 2
            per_section = int(stations_per_section[i])
            integration_stations = np.append(
                integration_stations,
                np.linspace(inp_stations_mod[i], val, per_section, endpoint=endpoint),
            )
            sweep_int_stations = np.append(
                sweep_int_stations, load_path_sweep_mod[i] * np.ones(per_section)
            )

        dy = np.diff(integration_stations)
        avg_sweep = np.sum(
            (dy[0:] + 2.0 * integration_stations[0:-1]) * dy[0:] * sweep_int_stations[0:-1]
        )

        load_distribution_factor = self.options[Aircraft.Wing.LOAD_DISTRIBUTION_CONTROL]
        load_intensity = load_intensity_by_factor(load_distribution_factor, integration_stations)

        chord_interp = InterpND(
            method='slinear', points=(inp_stations_mod), x_interp=integration_stations
        )
        chord_int_stations = chord_interp.evaluate_spline(chord_mod, compute_derivative=False)
        # Scale
        chord_int_stations *= ar_scale_factor

        del_load = (
            dy
            * (
                chord_int_stations[:-1] * (2 * load_intensity[:-1] + load_intensity[1:])
                + chord_int_stations[1:] * (2 * load_intensity[1:] + load_intensity[:-1])
            )
            / 6
        )

        el = np.sum(del_load)

        del_moment = (
            dy**2
            * (
                chord_int_stations[:-1] * (load_intensity[:-1] + load_intensity[1:])
                + chord_int_stations[1:] * (3 * load_intensity[1:] + load_intensity[:-1])
            )
            / 12
        )

        load_path_length = np.flip(
            np.append(np.zeros(1, chord.dtype), np.cumsum(np.flip(del_load)))
        )
        csw = 1.0 / np.cos(sweep_int_stations[:-1] * np.pi / 180.0)
        emi = (del_moment + dy * load_path_length[1:]) * csw

        tc_interp = InterpND(
            method='slinear', points=(inp_stations_mod), x_interp=integration_stations
        )
        tc_int_stations = tc_interp.evaluate_spline(
            thickness_to_chord_mod, compute_derivative=False
        )

        if tcref > 0.0:
            tc_int_stations *= tc / tcref

        total_moment = np.cumsum(emi[::-1])[::-1]

        bma = total_moment * csw / (chord_int_stations[:-1] * tc_int_stations[:-1])

        pm = np.sum((bma[:-1] + bma[1:]) * dy[:-1] * 0.5)

        s = np.sum((chord_int_stations[:-1] + chord_int_stations[1:]) * dy * 0.5)
        # calculated aspect ratio and calculated wing area
        calc_ar = 2.0 / s
        calc_area = wingspan**2 / calc_ar
        outputs['calculated_wing_area'] = calc_area

        btb = 4 * pm / el

        sa = np.sin(avg_sweep * np.pi / 180.0)
        if calc_ar <= 5.0:
            caya = 0.0
        else:
            caya = calc_ar - 5.0

        den = calc_ar ** (0.25 * fstrt) * (
            1.0 + (0.5 * faert - 0.16 * fstrt) * sa**2 + 0.03 * caya * (1.0 - 0.5 * faert) * sa
        )
        bt = btb / den

        outputs[Aircraft.Wing.BENDING_MATERIAL_FACTOR] = bt

        num_wing_engines = self.options[Aircraft.Engine.NUM_WING_ENGINES]
        num_engine_type = len(num_wing_engines)
        engine_locations = inputs[Aircraft.Engine.WING_LOCATIONS]
        gross_mass = inputs[Aircraft.Design.GROSS_MASS]
        # NOTE pod mass assumed the same for wing/non-wing mounted engines, only using
        #      wing mounted pods here
        pod_mass = inputs[Aircraft.Engine.POD_MASS]
        if np.sum(num_wing_engines) > 0:
            inertia_factor = np.zeros(num_engine_type, dtype=chord.dtype)
            eel = np.zeros(len(dy) + 1, dtype=chord.dtype)

            # idx is the index where this engine type begins in location list
            idx = 0
            # i is the counter for which engine model we are checking
            for i in range(num_engine_type):
                # idx2 is the last index for the range of engines of this type
                idx2 = idx + int(num_wing_engines[i] / 2)
                if num_wing_engines[i] > 1:
                    # engine locations must be in order from wing root to tip
                    eng_loc = np.sort(engine_locations[idx:idx2])

                else:
                    continue

                if eng_loc[0] <= integration_stations[0]:
                    inertia_factor[i] = 1.0

                elif eng_loc[0] >= integration_stations[-1]:
                    inertia_factor[i] = 0.84

                else:
                    eel[:] = 0.0
                    # Find all points on integration station before first engine
                    loc = np.where(integration_stations < eng_loc[0])[0]
                    eel[loc] = 1.0

                    delme = dy * eel[1:]

                    delme[loc[-1]] = eng_loc[0] - integration_stations[loc[-1]]

                    eem = delme * csw
                    eem = np.cumsum(eem[::-1])[::-1]

                    ea = eem * csw / (chord_int_stations[:-1] * tc_int_stations[:-1])

                    bte = 8 * np.sum((ea[:-1] + ea[1:]) * dy[:-1] * 0.5)

                    inertia_factor_i = 1 - bte / bt[0] * pod_mass[i] / gross_mass[0]
                    # avoid passing an array into specific index of inertia_factor
                    inertia_factor[i] = inertia_factor_i

                # increment idx to next engine set
                idx = idx2

            # LEAPS updated multiengine routine applies each engine pod's factor
            # multiplicatively, and enforces a minimum bound of 0.84
            inertia_factor_prod = np.prod(inertia_factor)
            if inertia_factor_prod < 0.84:
                inertia_factor_prod = 0.84
        else:
            inertia_factor_prod = 1.0

        outputs[Aircraft.Wing.ENG_POD_INERTIA_FACTOR] = inertia_factor_prod
