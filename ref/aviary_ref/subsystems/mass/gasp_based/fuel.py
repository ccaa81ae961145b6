import numpy as np
import openmdao.api as om

from aviary_ref.constants import GRAV_ENGLISH_LBM
from aviary_ref.utils.math import d_smooth_max, dSigmoidXdx, sigmoidX, smooth_max
from aviary_ref.variable_info.enums import Verbosity
from aviary_ref.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
from aviary_ref.variable_info.variables import Aircraft, Mission, Settings


class BodyTankCalculations(om.ExplicitComponent):
    """
    Computation of fuel capacity of the auxiliary tank, extra required design fuel volume
    along with mass of fuel in it, and minimum wing fuel mass.
    """

    def __init__(self, **kwargs):
        super().__init__(**kwargs)

        # Flag so warning doesn't print constantly.
        self.warned_vol = False
        self.warned_mass = False

    def initialize(self):
        add_aviary_option(self, Aircraft.Design.SMOOTH_MASS_DISCONTINUITIES, True)
        add_aviary_option(self, Settings.VERBOSITY)
        self.options.declare('mu', default=1.0, types=float)

    def setup(self):
        add_aviary_input(self, Aircraft.Fuel.WING_VOLUME_DESIGN, units='ft**3')
        add_aviary_input(self, Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, units='ft**3')
        self.add_input(
            'fuel_mass_min',
            units='lbm',
            desc='WFAMIN: minimum value of fuel mass (set when max payload is carried)',
        )
        self.add_input('fuel_mass_required', units='lbm', desc='WFAREQ: no margin')
        self.add_input('max_wingfuel_mass', units='lbm', desc='WFWMX: maximum wingfuel mass')
        add_aviary_input(self, Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX, units='ft**3')
        add_aviary_input(self, Aircraft.Fuel.DENSITY, units='lbm/ft**3')
        add_aviary_input(self, Aircraft.Design.GROSS_MASS, units='lbm')
        self.add_input('fuel_mass', units='lbm', desc='WFADES')
        add_aviary_input(self, Mission.OPERATING_MASS, units='lbm')

        # GASP total capacity didn't include the unusable mass, but Aviary total capacity does.
        add_aviary_input(self, Aircraft.Fuel.UNUSABLE_FUEL_MASS, units='lbm')

        # WFXTRA: extra amount of fuel that is required but does not fit in wings
        add_aviary_output(self, Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY, units='lbm')
        self.add_output(
            'extra_fuel_volume',
            units='ft**3',
            desc='FVOLXTRA: excess required design fuel volume (including fuel margin) greater than geometric fuel volume of wings',
        )  # there is no FVOLXTRA in GASP
        self.add_output(
            'max_extra_fuel_mass',
            units='lbm',
            desc='WFXTRAMX: mass of fuel that fits in extra_fuel_volume',
        )  # there is no WFXTRAMX in GASP
        self.add_output('wingfuel_mass_min', units='lbm', desc='WFWMIN: minimum wing fuel mass')
        add_aviary_output(self, Aircraft.Fuel.MAX_CAPACITY_MASS, units='lbm', desc='WFAMAX')

    def setup_partials(self):
        self.declare_partials(
            Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY,
            ['fuel_mass_required', 'max_wingfuel_mass'],
        )
        self.declare_partials(
            'extra_fuel_volume',
            [
                Aircraft.Fuel.WING_VOLUME_DESIGN,
                Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX,
                Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX,
            ],
        )
        self.declare_partials(
            'max_extra_fuel_mass',
            [
                Aircraft.Fuel.WING_VOLUME_DESIGN,
                Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX,
                Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX,
                Aircraft.Fuel.DENSITY,
            ],
        )
        self.declare_partials(
            'wingfuel_mass_min',
            [
                'fuel_mass_min',
                Aircraft.Fuel.WING_VOLUME_DESIGN,
                Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX,
                Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX,
                Aircraft.Fuel.DENSITY,
            ],
        )
        self.declare_partials(
            Aircraft.Fuel.MAX_CAPACITY_MASS,
            [
                'fuel_mass',
                'fuel_mass_required',
                'max_wingfuel_mass',
                Aircraft.Design.GROSS_MASS,
                Mission.OPERATING_MASS,
            ],
        )
        self.declare_partials(
            Aircraft.Fuel.MAX_CAPACITY_MASS, Aircraft.Fuel.UNUSABLE_FUEL_MASS, val=1.0
        )

    def compute(self, inputs, outputs):
        design_fuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_DESIGN]
        max_wingfuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX]
        fuel_wt_min = inputs['fuel_mass_min'] * GRAV_ENGLISH_LBM
        req_fuel_wt = inputs['fuel_mass_required'] * GRAV_ENGLISH_LBM
        max_wingfuel_wt = inputs['max_wingfuel_mass'] * GRAV_ENGLISH_LBM
        geom_fuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX]
        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM
        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        fuel_wt_des = inputs['fuel_mass'] * GRAV_ENGLISH_LBM
        OEW = inputs[Mission.OPERATING_MASS] * GRAV_ENGLISH_LBM
        unusable_fuel = inputs[Aircraft.Fuel.UNUSABLE_FUEL_MASS] * GRAV_ENGLISH_LBM

        smooth = self.options[Aircraft.Design.SMOOTH_MASS_DISCONTINUITIES]
        mu = self.options['mu']

        if smooth:
            extra_fuel_volume = sigmoidX(design_fuel_vol - max_wingfuel_vol, 0) * (
                design_fuel_vol - geom_fuel_vol
            )
        else:
            if design_fuel_vol < max_wingfuel_vol:
                extra_fuel_volume = 0.0
            else:
                extra_fuel_volume = design_fuel_vol - geom_fuel_vol
        # make sure extra_fuel_volume is not negative
        if smooth:
            extra_fuel_volume = smooth_max(extra_fuel_volume, 0.0, mu)
        else:
            extra_fuel_volume = np.maximum(extra_fuel_volume, 0.0)

        max_extra_fuel_wt = extra_fuel_volume * rho_fuel

        verbosity = self.options[Settings.VERBOSITY]
        if verbosity >= Verbosity.BRIEF:
            if (req_fuel_wt > max_wingfuel_wt) and (design_fuel_vol > max_wingfuel_vol):
                if not self.warned_mass:
                    print('req_fuel_mass > max_wingfuel_mass, adding a body tank')
                self.warned_mass = True
            else:
                self.warned_mass = False

            if (req_fuel_wt < max_wingfuel_wt) and (design_fuel_vol > max_wingfuel_vol):
                if not self.warned_vol:
                    print('design_fuel_vol > max_wingfuel_vol, adding a body tank')
                self.warned_vol = True
            else:
                self.warned_vol = False
            # TODO: where is the code that adds a body tank?

        extra_fuel_wt = req_fuel_wt - max_wingfuel_wt
        if smooth:
            extra_fuel_wt = extra_fuel_wt * sigmoidX(extra_fuel_wt, 0, 1 / 50)
        else:
            if extra_fuel_wt < 0:
                extra_fuel_wt = 0

        wingfuel_wt_min = fuel_wt_min - max_extra_fuel_wt
        if smooth:
            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
        else:
            if wingfuel_wt_min < 0.0:
                wingfuel_wt_min = 0.0

        max_fuel_avail_est = fuel_wt_des + extra_fuel_wt
        max_fuel_avail_new = gross_wt_initial - OEW
        est_GTOW = OEW + max_fuel_avail_est
        if smooth:
            max_fuel_avail = max_fuel_avail_est * sigmoidX(
                gross_wt_initial - est_GTOW, 0, 1.0 / 110.0
            ) + max_fuel_avail_new * sigmoidX(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
        else:
            if gross_wt_initial > est_GTOW:
                max_fuel_avail = max_fuel_avail_est
            elif gross_wt_initial < est_GTOW:
                max_fuel_avail = max_fuel_avail_new
            else:
                max_fuel_avail = (max_fuel_avail_est + max_fuel_avail_new) / 2.0

        outputs[Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY] = extra_fuel_wt / GRAV_ENGLISH_LBM
        outputs['extra_fuel_volume'] = extra_fuel_volume
        outputs['max_extra_fuel_mass'] = max_extra_fuel_wt / GRAV_ENGLISH_LBM

        # pass back to FuelSysAndFullFuselageMass
        outputs['wingfuel_mass_min'] = wingfuel_wt_min / GRAV_ENGLISH_LBM
        # pass back to FuelAndOEMOutputs
        outputs[Aircraft.Fuel.MAX_CAPACITY_MASS] = (
            max_fuel_avail + unusable_fuel
        ) / GRAV_ENGLISH_LBM

    def compute_partials(self, inputs, J):
        design_fuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_DESIGN]
        max_wingfuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX]
        fuel_wt_min = inputs['fuel_mass_min'] * GRAV_ENGLISH_LBM
        req_fuel_wt = inputs['fuel_mass_required'] * GRAV_ENGLISH_LBM
        max_wingfuel_wt = inputs['max_wingfuel_mass'] * GRAV_ENGLISH_LBM
        geom_fuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX]
        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM

        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        fuel_wt_des = inputs['fuel_mass'] * GRAV_ENGLISH_LBM
        OEW = inputs[Mission.OPERATING_MASS] * GRAV_ENGLISH_LBM

        smooth = self.options[Aircraft.Design.SMOOTH_MASS_DISCONTINUITIES]
        mu = self.options['mu']

        # partials of extra_fuel_volume
        if smooth:
            extra_fuel_volume = sigmoidX(design_fuel_vol - max_wingfuel_vol, 0) * (
                design_fuel_vol - geom_fuel_vol
            )
            dextra_fuel_volume_ddesign_fuel_vol = dSigmoidXdx(
                design_fuel_vol - max_wingfuel_vol, 0
            ) * (design_fuel_vol - geom_fuel_vol) + sigmoidX(design_fuel_vol - max_wingfuel_vol, 0)
            dextra_fuel_volume_dmax_wingfuel_vol = dSigmoidXdx(
                design_fuel_vol - max_wingfuel_vol, 0
            ) * -(design_fuel_vol - geom_fuel_vol)
            dextra_fuel_volume_dgeom_fuel_vol = -sigmoidX(design_fuel_vol - max_wingfuel_vol, 0)
        else:
            if design_fuel_vol < max_wingfuel_vol:
                extra_fuel_volume = 0.0
                dextra_fuel_volume_ddesign_fuel_vol = 0.0
                dextra_fuel_volume_dmax_wingfuel_vol = 0.0
                dextra_fuel_volume_dgeom_fuel_vol = 0.0
            else:
                extra_fuel_volume = design_fuel_vol - geom_fuel_vol
                dextra_fuel_volume_ddesign_fuel_vol = 1.0
                dextra_fuel_volume_dmax_wingfuel_vol = 0.0
                dextra_fuel_volume_dgeom_fuel_vol = -1.0
        # make sure extra_fuel_volume is not negative
        if smooth:
            sm_fac = d_smooth_max(extra_fuel_volume, 0.0, mu)
            dextra_fuel_volume_ddesign_fuel_vol = sm_fac * dextra_fuel_volume_ddesign_fuel_vol
            dextra_fuel_volume_dmax_wingfuel_vol = sm_fac * dextra_fuel_volume_dmax_wingfuel_vol
            dextra_fuel_volume_dgeom_fuel_vol = sm_fac * dextra_fuel_volume_dgeom_fuel_vol
            extra_fuel_volume = smooth_max(extra_fuel_volume, 0.0, mu)
        else:
            if extra_fuel_volume < 0:
                extra_fuel_volume = 0.0
                dextra_fuel_volume_ddesign_fuel_vol = 0.0
                dextra_fuel_volume_dmax_wingfuel_vol = 0.0
                dextra_fuel_volume_dgeom_fuel_vol = 0.0

        # partials of max_extra_fuel_mass
        max_extra_fuel_wt = extra_fuel_volume * rho_fuel
        dmax_extra_fuel_wt_ddesign_fuel_vol = dextra_fuel_volume_ddesign_fuel_vol * rho_fuel
        dmax_extra_fuel_wt_dmax_wingfuel_vol = dextra_fuel_volume_dmax_wingfuel_vol * rho_fuel
        dmax_extra_fuel_wt_dgeom_fuel_vol = dextra_fuel_volume_dgeom_fuel_vol * rho_fuel
        dmax_extra_fuel_wt_drho_fuel = extra_fuel_volume

        # Aircraft.Fuel.AUXILIARY_FUEL_CAPACITY
        extra_fuel_wt = req_fuel_wt - max_wingfuel_wt
        dextra_fuel_wt_dreq_fuel_wt = 1
        dextra_fuel_wt_dmax_wingfuel_wt = -1
        if smooth:
            extra_fuel_wt = extra_fuel_wt * sigmoidX(extra_fuel_wt, 0, 1 / 50.0)
            dextra_fuel_wt_dreq_fuel_wt = (
                sigmoidX(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
                + (req_fuel_wt - max_wingfuel_wt)
                * dSigmoidXdx(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
                * 1
                / 50
            )
            dextra_fuel_wt_dmax_wingfuel_wt = -1 * sigmoidX(
                (req_fuel_wt - max_wingfuel_wt), 0, 1 / 50.0
            ) + (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
                req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0
            ) * (-1 / 50)
        else:
            if extra_fuel_wt < 0:
                extra_fuel_wt = 0.0
                dextra_fuel_wt_dreq_fuel_wt = 0.0
                dextra_fuel_wt_dmax_wingfuel_wt = 0.0

        # partials of wingfuel_mass_min
        wingfuel_wt_min = fuel_wt_min - max_extra_fuel_wt
        dwingfuel_wt_min_dfuel_wt_min = 1
        dwingfuel_wt_min_ddesign_fuel_vol = -dmax_extra_fuel_wt_ddesign_fuel_vol
        dwingfuel_wt_min_dmax_wingfuel_vol = -dmax_extra_fuel_wt_dmax_wingfuel_vol
        dwingfuel_wt_min_dgeom_fuel_vol = -dmax_extra_fuel_wt_dgeom_fuel_vol
        dwingfuel_wt_min_drho_fuel = -dmax_extra_fuel_wt_drho_fuel
        if smooth:
            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
            dwingfuel_wt_min_dfuel_wt_min = (
                dwingfuel_wt_min_dfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
                + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_dfuel_wt_min
            )
            dwingfuel_wt_min_ddesign_fuel_vol = (
                dwingfuel_wt_min_ddesign_fuel_vol * sigmoidX(wingfuel_wt_min, 0)
                + wingfuel_wt_min
                * dSigmoidXdx(wingfuel_wt_min, 0)
                * dwingfuel_wt_min_ddesign_fuel_vol
            )
            dwingfuel_wt_min_dmax_wingfuel_vol = (
                dwingfuel_wt_min_dmax_wingfuel_vol * sigmoidX(wingfuel_wt_min, 0)
                + wingfuel_wt_min
                * dSigmoidXdx(wingfuel_wt_min, 0)
                * dwingfuel_wt_min_dmax_wingfuel_vol
            )
            dwingfuel_wt_min_dgeom_fuel_vol = (
                dwingfuel_wt_min_dgeom_fuel_vol * sigmoidX(wingfuel_wt_min, 0)
                + wingfuel_wt_min
                * dSigmoidXdx(wingfuel_wt_min, 0)
                * dwingfuel_wt_min_dgeom_fuel_vol
            )
            dwingfuel_wt_min_drho_fuel = (
                dwingfuel_wt_min_drho_fuel * sigmoidX(wingfuel_wt_min, 0)
                + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_drho_fuel
            )
        else:
            if wingfuel_wt_min < 0.0:
                wingfuel_wt_min = 0.0
                dwingfuel_wt_min_dfuel_wt_min = 0.0
                dwingfuel_wt_min_ddesign_fuel_vol = 0.0
                dwingfuel_wt_min_dmax_wingfuel_vol = 0.0
                dwingfuel_wt_min_dgeom_fuel_vol = 0.0
                dwingfuel_wt_min_drho_fuel = 0.0

        # partials of Aircraft.Fuel.MAX_CAPACITY_MASS
        max_fuel_avail_est = fuel_wt_des + extra_fuel_wt
        dmax_fuel_avail_est_dfuel_wt_des = 1
        dmax_fuel_avail_est_dreq_fuel_wt = dextra_fuel_wt_dreq_fuel_wt
        dmax_fuel_avail_est_dmax_wingfuel_wt = dextra_fuel_wt_dmax_wingfuel_wt
        dmax_fuel_avail_est_dgross_wt_initial = 0.0
        dmax_fuel_avail_est_dOEW = 0.0

        max_fuel_avail_new = gross_wt_initial - OEW
        dmax_fuel_avail_new_dfuel_wt_des = 0.0
        dmax_fuel_avail_new_dreq_fuel_wt = 0.0
        dmax_fuel_avail_new_dmax_wingfuel_wt = 0.0
        dmax_fuel_avail_new_dgross_wt_initial = 1.0
        dmax_fuel_avail_new_dOEW = -1.0

        est_GTOW = OEW + fuel_wt_des + extra_fuel_wt
        if smooth:
            Int1 = sigmoidX(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
            Int2 = sigmoidX(est_GTOW - gross_wt_initial, 0, 1 / 110.0)

            # max_fuel_avail = max_fuel_avail_est * Int1 + max_fuel_avail_new * Int2
            dInt1_dfuel_wt_des = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (
                -1 / 110.0
            )
            dInt1_dreq_fuel_wt = (
                dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
                * -dextra_fuel_wt_dreq_fuel_wt
                / 100.0
            )
            dInt1_dmax_wingfuel_wt = (
                dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
                * -dmax_extra_fuel_wt_dmax_wingfuel_vol
                / 100.0
            )
            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) / 110.0
            dInt1_dOEW = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (-1 / 110.0)

            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
            dInt2_dreq_fuel_wt = (
                dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
                * dextra_fuel_wt_dreq_fuel_wt
                / 100.0
            )
            dInt2_dmax_wingfuel_wt = (
                dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
                * dmax_extra_fuel_wt_dmax_wingfuel_vol
                / 100.0
            )
            dInt2_dgross_wt_initial = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) * (
                -1 / 110.0
            )
            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
            dmax_fuel_avail_dfuel_wt_des = (
                dmax_fuel_avail_est_dfuel_wt_des * Int1
                + max_fuel_avail_est * dInt1_dfuel_wt_des
                + dmax_fuel_avail_new_dfuel_wt_des * Int2
                + max_fuel_avail_new * dInt2_dfuel_wt_des
            )
            dmax_fuel_avail_dreq_fuel_wt = (
                dmax_fuel_avail_est_dreq_fuel_wt * Int1
                + max_fuel_avail_est * dInt1_dreq_fuel_wt
                + dmax_fuel_avail_new_dreq_fuel_wt * Int2
                + max_fuel_avail_new * dInt2_dreq_fuel_wt
            )
            dmax_fuel_avail_dmax_wingfuel_wt = (
                dmax_fuel_avail_est_dmax_wingfuel_wt * Int1
                + max_fuel_avail_est * dInt1_dmax_wingfuel_wt
                + dmax_fuel_avail_new_dmax_wingfuel_wt * Int2
                + max_fuel_avail_new * dInt2_dmax_wingfuel_wt
            )
            dmax_fuel_avail_dgross_wt_initial = (
                dmax_fuel_avail_est_dgross_wt_initial * Int1
                + max_fuel_avail_est * dInt1_dgross_wt_initial
                + dmax_fuel_avail_new_dgross_wt_initial * Int2
                + max_fuel_avail_new * dInt2_dgross_wt_initial
            )
            dmax_fuel_avail_dOEW = (
                dmax_fuel_avail_est_dOEW * Int1
                + max_fuel_avail_est * dInt1_dOEW
                + dmax_fuel_avail_new_dOEW * Int2
                + max_fuel_avail_new * dInt2_dOEW
            )
        else:
            if gross_wt_initial > est_GTOW:
                # max_fuel_avail = max_fuel_avail_est
                dmax_fuel_avail_dfuel_wt_des = 1.0
                dmax_fuel_avail_dreq_fuel_wt = dextra_fuel_wt_dreq_fuel_wt
                dmax_fuel_avail_dmax_wingfuel_wt = dmax_fuel_avail_est_dmax_wingfuel_wt
                dmax_fuel_avail_dgross_wt_initial = 0.0
                dmax_fuel_avail_dOEW = 0.0
            elif gross_wt_initial < est_GTOW:
                # max_fuel_avail = max_fuel_avail_new
                dmax_fuel_avail_dfuel_wt_des = 0.0
                dmax_fuel_avail_dreq_fuel_wt = 0.0
                dmax_fuel_avail_dmax_wingfuel_wt = 0.0
                dmax_fuel_avail_dgross_wt_initial = 1.0
                dmax_fuel_avail_dOEW = -1.0
            else:
                # max_fuel_avail = (max_fuel_avail_est + max_fuel_avail_new) / 2.0
                dmax_fuel_avail_dfuel_wt_des = 1.0 / 2.0
                dmax_fuel_avail_dreq_fuel_wt = dextra_fuel_wt_dreq_fuel_wt / 2.0
                dmax_fuel_avail_dmax_wingfuel_wt = 0.0
                dmax_fuel_avail_dgross_wt_initial = 1.0 / 2.0
                dmax_fuel_avail_dOEW = -1.0 / 2.0

        J['extra_fuel_volume', Aircraft.Fuel.WING_VOLUME_DESIGN] = (
            dextra_fuel_volume_ddesign_fuel_vol
        )
        J['extra_fuel_volume', Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX] = (
            dextra_fuel_volume_dmax_wingfuel_vol
        )
        J['extra_fuel_volume', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = (
            dextra_fuel_volume_dgeom_fuel_vol
        )

        J['max_extra_fuel_mass', Aircraft.Fuel.WING_VOLUME_DESIGN] = (
            dmax_extra_fuel_wt_ddesign_fuel_vol / GRAV_ENGLISH_LBM
        )
        J['max_extra_fuel_mass', Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX] = (
            dmax_extra_fuel_wt_dmax_wingfuel_vol / GRAV_ENGLISH_LBM
        )
        J['max_extra_fuel_mass', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = (
            dmax_extra_fuel_wt_dgeom_fuel_vol / GRAV_ENGLISH_LBM,
        )

        J['max_extra_fuel_mass', Aircraft.Fuel.DENSITY] = dmax_extra_fuel_wt_drho_fuel

        J[Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY, 'fuel_mass_required'] = (
            dextra_fuel_wt_dreq_fuel_wt
        )
        J[Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY, 'max_wingfuel_mass'] = (
            dextra_fuel_wt_dmax_wingfuel_wt
        )

        J['wingfuel_mass_min', 'fuel_mass_min'] = dwingfuel_wt_min_dfuel_wt_min
        J['wingfuel_mass_min', Aircraft.Fuel.WING_VOLUME_DESIGN] = (
            dwingfuel_wt_min_ddesign_fuel_vol / GRAV_ENGLISH_LBM
        )
        J['wingfuel_mass_min', Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX] = (
            dwingfuel_wt_min_dmax_wingfuel_vol / GRAV_ENGLISH_LBM
        )
        J['wingfuel_mass_min', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = (
            dwingfuel_wt_min_dgeom_fuel_vol / GRAV_ENGLISH_LBM
        )
        J['wingfuel_mass_min', Aircraft.Fuel.DENSITY] = dwingfuel_wt_min_drho_fuel

        J[Aircraft.Fuel.MAX_CAPACITY_MASS, 'fuel_mass'] = dmax_fuel_avail_dfuel_wt_des
        J[Aircraft.Fuel.MAX_CAPACITY_MASS, 'fuel_mass_required'] = dmax_fuel_avail_dreq_fuel_wt
        J[Aircraft.Fuel.MAX_CAPACITY_MASS, 'max_wingfuel_mass'] = dmax_fuel_avail_dmax_wingfuel_wt
        J[Aircraft.Fuel.MAX_CAPACITY_MASS, Aircraft.Design.GROSS_MASS] = (
            dmax_fuel_avail_dgross_wt_initial
        )
        J[Aircraft.Fuel.MAX_CAPACITY_MASS, Mission.OPERATING_MASS] = dmax_fuel_avail_dOEW


class FuelComponents(om.ExplicitComponent):
    """
    Computation of various fuel parameters (wing fuel mass when operating empty, wing tank fuel
    volume when carrying maximum fuel, wing tank fuel volume when carrying design fuel plus fuel
    margin, operating mass empty of the aircraft, allowable payload mass with maximum fuel, mass of
    wing fuel based on volume, maximum wingfuel mass, and wing tank volume based on maximum wing
    fuel weight).
    """

    def initialize(self):
        add_aviary_option(self, Aircraft.Design.SMOOTH_MASS_DISCONTINUITIES)

    def setup(self):
        add_aviary_input(self, Aircraft.Fuel.DENSITY, units='lbm/ft**3')
        add_aviary_input(self, Aircraft.Design.GROSS_MASS, units='lbm')
        self.add_input('fuel_mass_required', units='lbm', desc='WFAREQ: no margin')
        add_aviary_input(self, Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX, units='ft**3')
        add_aviary_input(self, Aircraft.Fuel.VOLUME_MARGIN, units='unitless')
        add_aviary_input(self, Aircraft.Fuel.MAX_CAPACITY_MASS, units='lbm')
        add_aviary_input(self, Mission.OPERATING_MASS, units='lbm')

        # GASP total capacity didn't include the unusable mass, but Aviary total capacity does.
        add_aviary_input(self, Aircraft.Fuel.UNUSABLE_FUEL_MASS, units='lbm')

        self.add_output(
            'OEM_wingfuel_mass',
            units='lbm',
            desc='WFWOWE: wing fuel mass when operating empty',
        )
        self.add_output(
            'OEM_fuel_vol',
            units='ft**3',
            desc='FVOLW: wing tank fuel volume when carrying maximum fuel',
        )
        add_aviary_output(self, Aircraft.Fuel.WING_VOLUME_DESIGN, units='ft**3')

        self.add_output(
            'payload_mass_max_fuel',
            units='lbm',
            desc='WPLMXF: allowable payload mass with maximum fuel',
        )
        self.add_output(
            'volume_wingfuel_mass',
            units='lbm',
            desc='mass of wing fuel based on volume, sometimes set as WFWMX in GASP, '
            'depending on if it exceeds the OEM fuel mass',
        )
        self.add_output('max_wingfuel_mass', units='lbm', desc='WFWMX: maximum wingfuel mass')
        add_aviary_output(self, Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, units='ft**3')

    def setup_partials(self):
        self.declare_partials(
            'OEM_wingfuel_mass',
            [
                Aircraft.Design.GROSS_MASS,
                Mission.OPERATING_MASS,
            ],
        )
        self.declare_partials(
            'OEM_fuel_vol',
            [
                Aircraft.Design.GROSS_MASS,
                Mission.OPERATING_MASS,
                Aircraft.Fuel.DENSITY,
            ],
        )
        self.declare_partials(
            Aircraft.Fuel.WING_VOLUME_DESIGN,
            ['fuel_mass_required', Aircraft.Fuel.DENSITY, Aircraft.Fuel.VOLUME_MARGIN],
        )
        self.declare_partials('payload_mass_max_fuel', [Aircraft.Design.GROSS_MASS], val=1)
        self.declare_partials(
            'payload_mass_max_fuel',
            [
                Aircraft.Fuel.MAX_CAPACITY_MASS,
                Mission.OPERATING_MASS,
            ],
            val=-1.0,
        )
        self.declare_partials('payload_mass_max_fuel', Aircraft.Fuel.UNUSABLE_FUEL_MASS, val=1.0)
        self.declare_partials(
            'volume_wingfuel_mass', [Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX, Aircraft.Fuel.DENSITY]
        )
        self.declare_partials(
            'max_wingfuel_mass',
            [
                Aircraft.Design.GROSS_MASS,
                Mission.OPERATING_MASS,
                Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX,
                Aircraft.Fuel.DENSITY,
            ],
        )
        self.declare_partials(
            Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX,
            [
                Aircraft.Design.GROSS_MASS,
                Mission.OPERATING_MASS,
                Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX,
                Aircraft.Fuel.DENSITY,
            ],
        )

    def compute(self, inputs, outputs):
        smooth = self.options[Aircraft.Design.SMOOTH_MASS_DISCONTINUITIES]

        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM

        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        req_fuel_wt = inputs['fuel_mass_required'] * GRAV_ENGLISH_LBM
        geometric_fuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX]
        fuel_margin = inputs[Aircraft.Fuel.VOLUME_MARGIN]
        OEW = inputs[Mission.OPERATING_MASS] * GRAV_ENGLISH_LBM

        total_fuel = inputs[Aircraft.Fuel.MAX_CAPACITY_MASS]
        unusable_fuel = inputs[Aircraft.Fuel.UNUSABLE_FUEL_MASS]
        max_fuel_avail = (total_fuel - unusable_fuel) * GRAV_ENGLISH_LBM

        OEM_wingfuel_wt = gross_wt_initial - OEW

        OEM_fuel_vol = OEM_wingfuel_wt / rho_fuel
        design_fuel_vol = (1.0 + fuel_margin / 100.0) * req_fuel_wt / rho_fuel

        volume_wingfuel_wt = geometric_fuel_vol * rho_fuel
        if smooth:
            max_wingfuel_wt = OEM_wingfuel_wt * sigmoidX(
                volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0
            ) + volume_wingfuel_wt * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
        else:
            if volume_wingfuel_wt > OEM_wingfuel_wt:
                max_wingfuel_wt = OEM_wingfuel_wt
            else:
                max_wingfuel_wt = volume_wingfuel_wt
        payload_wt_max_fuel = gross_wt_initial - OEW - max_fuel_avail
        max_wingfuel_vol = max_wingfuel_wt / rho_fuel

        outputs['OEM_wingfuel_mass'] = OEM_wingfuel_wt / GRAV_ENGLISH_LBM
        outputs['OEM_fuel_vol'] = OEM_fuel_vol
        outputs[Aircraft.Fuel.WING_VOLUME_DESIGN] = design_fuel_vol
        outputs['payload_mass_max_fuel'] = payload_wt_max_fuel / GRAV_ENGLISH_LBM
        outputs['volume_wingfuel_mass'] = volume_wingfuel_wt / GRAV_ENGLISH_LBM
        outputs['max_wingfuel_mass'] = max_wingfuel_wt / GRAV_ENGLISH_LBM
        outputs[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX] = max_wingfuel_vol

    def compute_partials(self, inputs, J):
        smooth = self.options[Aircraft.Design.SMOOTH_MASS_DISCONTINUITIES]

        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM
        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        OEW = inputs[Mission.OPERATING_MASS] * GRAV_ENGLISH_LBM
        req_fuel_wt = inputs['fuel_mass_required'] * GRAV_ENGLISH_LBM
        geometric_fuel_vol = inputs[Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX]
        fuel_margin = inputs[Aircraft.Fuel.VOLUME_MARGIN]

        OEM_wingfuel_wt = gross_wt_initial - OEW
        volume_wingfuel_wt = geometric_fuel_vol * rho_fuel
        if smooth:
            max_wingfuel_wt = OEM_wingfuel_wt * sigmoidX(
                volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0
            ) + volume_wingfuel_wt * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
        else:
            if volume_wingfuel_wt > OEM_wingfuel_wt:
                max_wingfuel_wt = OEM_wingfuel_wt
            else:
                max_wingfuel_wt = volume_wingfuel_wt

        J['OEM_wingfuel_mass', Aircraft.Design.GROSS_MASS] = dOEMwingfuelWt_dGTOW = 1
        J['OEM_wingfuel_mass', Mission.OPERATING_MASS] = dOEMwingfuelWt_dOEW = -1

        J['OEM_fuel_vol', Aircraft.Design.GROSS_MASS] = 1 / rho_fuel * GRAV_ENGLISH_LBM
        J['OEM_fuel_vol', Mission.OPERATING_MASS] = -1 / rho_fuel * GRAV_ENGLISH_LBM
        J['OEM_fuel_vol', Aircraft.Fuel.DENSITY] = -OEM_wingfuel_wt / rho_fuel**2 * GRAV_ENGLISH_LBM

        J[Aircraft.Fuel.WING_VOLUME_DESIGN, 'fuel_mass_required'] = (
            (1.0 + fuel_margin / 100.0) / rho_fuel * GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuel.WING_VOLUME_DESIGN, Aircraft.Fuel.DENSITY] = (
            -(1.0 + fuel_margin / 100.0) * req_fuel_wt / rho_fuel**2 * GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuel.WING_VOLUME_DESIGN, Aircraft.Fuel.VOLUME_MARGIN] = (
            1 / 100.0 * req_fuel_wt / rho_fuel
        )

        J['volume_wingfuel_mass', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = (
            rho_fuel / GRAV_ENGLISH_LBM
        )
        J['volume_wingfuel_mass', Aircraft.Fuel.DENSITY] = geometric_fuel_vol

        if smooth:
            dMaxWFWt_dGTOW = (
                OEM_wingfuel_wt
                * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                * dOEMwingfuelWt_dGTOW
                + dOEMwingfuelWt_dGTOW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                + volume_wingfuel_wt
                * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
                * dOEMwingfuelWt_dGTOW
            )
            dMaxWFWt_dOEW = (
                OEM_wingfuel_wt
                * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                * dOEMwingfuelWt_dOEW
                + dOEMwingfuelWt_dOEW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                + volume_wingfuel_wt
                * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
                * dOEMwingfuelWt_dOEW
            )
            dMaxWFWt_dGeomFuelVol = (
                OEM_wingfuel_wt
                * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                * rho_fuel
                + volume_wingfuel_wt
                * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
                * rho_fuel
                + rho_fuel * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
            )
            dMaxWFWt_dRhoFuel = (
                OEM_wingfuel_wt
                * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                * geometric_fuel_vol
                + volume_wingfuel_wt
                * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
                * geometric_fuel_vol
                + geometric_fuel_vol * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
            )

            J['max_wingfuel_mass', Aircraft.Design.GROSS_MASS] = dMaxWFWt_dGTOW
            J['max_wingfuel_mass', Mission.OPERATING_MASS] = dMaxWFWt_dOEW
            J['max_wingfuel_mass', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = (
                dMaxWFWt_dGeomFuelVol / GRAV_ENGLISH_LBM
            )
            J['max_wingfuel_mass', Aircraft.Fuel.DENSITY] = dMaxWFWt_dRhoFuel
        else:
            if volume_wingfuel_wt > OEM_wingfuel_wt:
                J['max_wingfuel_mass', Aircraft.Design.GROSS_MASS] = J[
                    'OEM_wingfuel_mass', Aircraft.Design.GROSS_MASS
                ]
                J['max_wingfuel_mass', Mission.OPERATING_MASS] = J[
                    'OEM_wingfuel_mass', Mission.OPERATING_MASS
                ]
                J['max_wingfuel_mass', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = 0.0
                J['max_wingfuel_mass', Aircraft.Fuel.DENSITY] = 0.0
            else:
                J['max_wingfuel_mass', Aircraft.Design.GROSS_MASS] = 0.0
                J['max_wingfuel_mass', Mission.OPERATING_MASS] = 0.0
                J['max_wingfuel_mass', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = J[
                    'volume_wingfuel_mass', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX
                ]
                J['max_wingfuel_mass', Aircraft.Fuel.DENSITY] = J[
                    'volume_wingfuel_mass', Aircraft.Fuel.DENSITY
                ]

        if smooth:
            J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Aircraft.Design.GROSS_MASS] = (
                dMaxWFWt_dGTOW / rho_fuel
            )
            J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Mission.OPERATING_MASS] = (
                dMaxWFWt_dOEW / rho_fuel
            )
            J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX] = (
                dMaxWFWt_dGeomFuelVol / rho_fuel
            )
            J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Aircraft.Fuel.DENSITY] = (
                dMaxWFWt_dRhoFuel / rho_fuel - max_wingfuel_wt / rho_fuel**2
            )
        else:
            if volume_wingfuel_wt > OEM_wingfuel_wt:
                J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Aircraft.Design.GROSS_MASS] = (
                    J['OEM_wingfuel_mass', Aircraft.Design.GROSS_MASS] / rho_fuel
                )
                J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Mission.OPERATING_MASS] = (
                    J['OEM_wingfuel_mass', Mission.OPERATING_MASS] / rho_fuel
                )
                J[
                    Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX,
                    Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX,
                ] = 0.0
                J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Aircraft.Fuel.DENSITY] = (
                    -max_wingfuel_wt / rho_fuel**2
                )
            else:
                J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Aircraft.Design.GROSS_MASS] = (
                    J['max_wingfuel_mass', Aircraft.Design.GROSS_MASS] / rho_fuel
                )
                J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Mission.OPERATING_MASS] = (
                    J['max_wingfuel_mass', Mission.OPERATING_MASS] / rho_fuel
                )
                J[
                    Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX,
                    Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX,
                ] = (
                    (J['max_wingfuel_mass', Aircraft.Fuel.WING_VOLUME_GEOMETRIC_MAX])
                    / rho_fuel
                    * GRAV_ENGLISH_LBM
                )
                J[Aircraft.Fuel.WING_VOLUME_STRUCTURAL_MAX, Aircraft.Fuel.DENSITY] = (
                    (J['max_wingfuel_mass', Aircraft.Fuel.DENSITY]) / rho_fuel
                    - max_wingfuel_wt / rho_fuel**2
                )


class FuelSysAndFullFuselageMass(om.ExplicitComponent):
    """Computation of fuselage mass and fuel system mass."""

    def setup(self):
        add_aviary_input(self, Aircraft.Design.GROSS_MASS, units='lbm')

        add_aviary_input(self, Aircraft.Wing.MASS, units='lbm')
        self.add_input(
            'wing_mounted_mass',
            units='lbm',
            desc='WM: mass of gear and engine (everything on wing that isn`t wing itself or fuel',
        )
        add_aviary_input(self, Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER, units='unitless')
        add_aviary_input(self, Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT, units='unitless')
        add_aviary_input(self, Aircraft.Fuel.DENSITY, units='lbm/galUS')
        self.add_input('fuel_mass', units='lbm', desc='WFADES')
        add_aviary_input(self, Aircraft.Fuel.VOLUME_MARGIN, units='unitless')
        self.add_input('wingfuel_mass_min', units='lbm', desc='WFWMIN: minimum wing fuel mass')

        self.add_output(
            'fus_mass_full',
            units='lbm',
            desc='WX: mass of fuselage and contents, including empennage',
        )
        add_aviary_output(self, Aircraft.Fuel.FUEL_SYSTEM_MASS, units='lbm', desc='WFSS?')

    def setup_partials(self):
        self.declare_partials(
            Aircraft.Fuel.FUEL_SYSTEM_MASS,
            [
                Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER,
                Aircraft.Fuel.DENSITY,
                Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT,
                'fuel_mass',
                Aircraft.Fuel.VOLUME_MARGIN,
            ],
        )
        self.declare_partials(
            'fus_mass_full',
            [
                Aircraft.Design.GROSS_MASS,
                Aircraft.Wing.MASS,
                'wingfuel_mass_min',
                'wing_mounted_mass',
            ],
        )

    def compute(self, inputs, outputs):
        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        total_wing_wt = inputs[Aircraft.Wing.MASS] * GRAV_ENGLISH_LBM
        wing_mounted_wt = inputs['wing_mounted_mass'] * GRAV_ENGLISH_LBM
        CK21 = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER]
        c_mass_trend_fuel_sys = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT]
        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM
        fuel_wt_des = inputs['fuel_mass'] * GRAV_ENGLISH_LBM
        fuel_margin = inputs[Aircraft.Fuel.VOLUME_MARGIN]
        wingfuel_wt_min = inputs['wingfuel_mass_min'] * GRAV_ENGLISH_LBM

        outputs[Aircraft.Fuel.FUEL_SYSTEM_MASS] = (
            CK21
            * (6.687 / rho_fuel)
            * c_mass_trend_fuel_sys
            * fuel_wt_des
            * (1.0 + fuel_margin / 100.0)
            / GRAV_ENGLISH_LBM
        )
        outputs['fus_mass_full'] = (
            gross_wt_initial - total_wing_wt - wingfuel_wt_min - wing_mounted_wt
        ) / GRAV_ENGLISH_LBM

    def compute_partials(self, inputs, J):
        CK21 = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER]
        c_mass_trend_fuel_sys = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT]
        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM
        fuel_wt_des = inputs['fuel_mass'] * GRAV_ENGLISH_LBM
        fuel_margin = inputs[Aircraft.Fuel.VOLUME_MARGIN]

        J[Aircraft.Fuel.FUEL_SYSTEM_MASS, Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER] = (
            (6.687 / rho_fuel)
            * c_mass_trend_fuel_sys
            * fuel_wt_des
            * (1.0 + fuel_margin / 100.0)
            / GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuel.FUEL_SYSTEM_MASS, Aircraft.Fuel.DENSITY] = (
            -CK21
            * (6.687 / rho_fuel**2)
            * c_mass_trend_fuel_sys
            * fuel_wt_des
            * (1.0 + fuel_margin / 100.0)
        )
        J[Aircraft.Fuel.FUEL_SYSTEM_MASS, Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT] = (
            CK21 * (6.687 / rho_fuel) * fuel_wt_des * (1.0 + fuel_margin / 100.0) / GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuel.FUEL_SYSTEM_MASS, 'fuel_mass'] = (
            CK21 * (6.687 / rho_fuel) * c_mass_trend_fuel_sys * (1.0 + fuel_margin / 100.0)
        )
        J[Aircraft.Fuel.FUEL_SYSTEM_MASS, Aircraft.Fuel.VOLUME_MARGIN] = (
            CK21
            * (6.687 / rho_fuel)
            * c_mass_trend_fuel_sys
            * fuel_wt_des
            * (1 / 100.0)
            / GRAV_ENGLISH_LBM
        )

        J['fus_mass_full', Aircraft.Design.GROSS_MASS] = 1
        J['fus_mass_full', Aircraft.Wing.MASS] = -1
        J['fus_mass_full', 'wingfuel_mass_min'] = -1
        J['fus_mass_full', 'wing_mounted_mass'] = -1


class FuselageMass(om.ExplicitComponent):
    """Computation of the fuselage structure mass."""

    def setup(self):
        self.add_input(
            'fus_mass_full',
            units='lbm',
            desc='WX: mass of fuselage and contents, including empennage',
        )
        add_aviary_input(self, Aircraft.Fuselage.MASS_SCALER, units='unitless')
        add_aviary_input(self, Aircraft.Fuselage.MASS_COEFFICIENT, units='unitless')
        add_aviary_input(self, Aircraft.Fuselage.WETTED_AREA, units='ft**2')
        add_aviary_input(self, Aircraft.Fuselage.AVG_DIAMETER, units='ft')
        add_aviary_input(self, Aircraft.TailBoom.LENGTH, units='ft')
        # pylon_len is not computed in Aviary
        self.add_input(
            'pylon_len',
            val=0,
            units='ft',
            desc='ELRW: length of pylon for fuselage mounted engines',
        )
        self.add_input('min_dive_vel', units='kn', desc='VDMIN: dive velocity')
        add_aviary_input(self, Aircraft.Fuselage.PRESSURE_DIFFERENTIAL, units='psi')
        add_aviary_input(self, Aircraft.Wing.ULTIMATE_LOAD_FACTOR, units='unitless')
        # MAT is not computed in Aviary
        self.add_input(
            'MAT', val=0, units='lbm', desc='WAT: Weight of the Fuselage Acoustic Treatment'
        )

        add_aviary_output(self, Aircraft.Fuselage.MASS, units='lbm')

    def setup_partials(self):
        self.declare_partials(
            Aircraft.Fuselage.MASS,
            [
                Aircraft.Fuselage.MASS_SCALER,
                Aircraft.Fuselage.MASS_COEFFICIENT,
                'fus_mass_full',
                Aircraft.Fuselage.WETTED_AREA,
                Aircraft.Fuselage.AVG_DIAMETER,
                Aircraft.TailBoom.LENGTH,
                'pylon_len',
                'min_dive_vel',
                Aircraft.Fuselage.PRESSURE_DIFFERENTIAL,
                Aircraft.Wing.ULTIMATE_LOAD_FACTOR,
                'MAT',
            ],
        )

    def compute(self, inputs, outputs):
        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
        fus_wt_full = inputs['fus_mass_full'] * GRAV_ENGLISH_LBM
        c_fuselage = inputs[Aircraft.Fuselage.MASS_COEFFICIENT]
        fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
        cabin_width = inputs[Aircraft.Fuselage.AVG_DIAMETER]
        cabin_len_tailboom = inputs[Aircraft.TailBoom.LENGTH]
        pylon_len = inputs['pylon_len']
        min_dive_vel = inputs['min_dive_vel']
        p_diff_fus = inputs[Aircraft.Fuselage.PRESSURE_DIFFERENTIAL]
        ULF = inputs[Aircraft.Wing.ULTIMATE_LOAD_FACTOR]
        WAT = inputs['MAT'] * GRAV_ENGLISH_LBM

        fus_wt = CK11 * (
            c_fuselage
            * (
                (fus_wt_full / 10000.0) ** 0.7
                * (fus_SA / 1000.0)
                * cabin_width
                * (cabin_len_tailboom + pylon_len) ** 0.5
                * np.log10(min_dive_vel)
                * (p_diff_fus + 1.0) ** 0.2
                * ULF**0.3
            )
            ** 0.508
            + WAT
        )

        outputs[Aircraft.Fuselage.MASS] = fus_wt / GRAV_ENGLISH_LBM

    def compute_partials(self, inputs, J):
        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
        fus_wt_full = inputs['fus_mass_full'] * GRAV_ENGLISH_LBM
        c_fuselage = inputs[Aircraft.Fuselage.MASS_COEFFICIENT]
        fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
        cabin_width = inputs[Aircraft.Fuselage.AVG_DIAMETER]
        cabin_len_tailboom = inputs[Aircraft.TailBoom.LENGTH]
        pylon_len = inputs['pylon_len']
        min_dive_vel = inputs['min_dive_vel']
        p_diff_fus = inputs[Aircraft.Fuselage.PRESSURE_DIFFERENTIAL]
        ULF = inputs[Aircraft.Wing.ULTIMATE_LOAD_FACTOR]
        WAT = inputs['MAT'] * GRAV_ENGLISH_LBM

        fus_wt = CK11 * (
            c_fuselage
            * (
                (fus_wt_full / 10000.0) ** 0.7
                * (fus_SA / 1000.0)
                * cabin_width
                * (cabin_len_tailboom + pylon_len) ** 0.5
                * np.log10(min_dive_vel)
                * (p_diff_fus + 1.0) ** 0.2
                * ULF**0.3
            )
            ** 0.508
            + WAT
        )

        x = (
            CK11
            * 0.508
            * (
                (fus_wt_full / 10000.0) ** 0.7
                * (fus_SA / 1000.0)
                * cabin_width
                * (cabin_len_tailboom + pylon_len) ** 0.5
                * np.log10(min_dive_vel)
                * (p_diff_fus + 1.0) ** 0.2
                * ULF**0.3
            )
            ** (0.508 - 1)
        )
        dFusWt_dCFus = (
            CK11
            * (
                (fus_wt_full / 10000.0) ** 0.7
                * (fus_SA / 1000.0)
                * cabin_width
                * (cabin_len_tailboom + pylon_len) ** 0.5
                * np.log10(min_dive_vel)
                * (p_diff_fus + 1.0) ** 0.2
                * ULF**0.3
            )
            ** 0.508
        )
        dFusWt_dFusWtFull = (
            c_fuselage
            * x
            * 0.7
            * (fus_wt_full / 10000.0) ** (0.7 - 1)
            * (1 / 10000)
            * (fus_SA / 1000.0)
            * cabin_width
            * (cabin_len_tailboom + pylon_len) ** 0.5
            * np.log10(min_dive_vel)
            * (p_diff_fus + 1.0) ** 0.2
            * ULF**0.3
        )
        dFusWt_dFusSA = (
            c_fuselage
            * x
            * (fus_wt_full / 10000.0) ** 0.7
            * (1 / 1000.0)
            * cabin_width
            * (cabin_len_tailboom + pylon_len) ** 0.5
            * np.log10(min_dive_vel)
            * (p_diff_fus + 1.0) ** 0.2
            * ULF**0.3
        )
        dFusWt_dCabWidth = (
            c_fuselage
            * x
            * (fus_wt_full / 10000.0) ** 0.7
            * (fus_SA / 1000.0)
            * (cabin_len_tailboom + pylon_len) ** 0.5
            * np.log10(min_dive_vel)
            * (p_diff_fus + 1.0) ** 0.2
            * ULF**0.3
        )
        dFusWt_dCabLenBoom = (
            c_fuselage
            * x
            * (fus_wt_full / 10000.0) ** 0.7
            * (fus_SA / 1000.0)
            * cabin_width
            * 0.5
            * (cabin_len_tailboom + pylon_len) ** (-0.5)
            * np.log10(min_dive_vel)
            * (p_diff_fus + 1.0) ** 0.2
            * ULF**0.3
        )
        dFusWt_dPylonLen = (
            c_fuselage
            * x
            * (fus_wt_full / 10000.0) ** 0.7
            * (fus_SA / 1000.0)
            * cabin_width
            * 0.5
            * (cabin_len_tailboom + pylon_len) ** (-0.5)
            * np.log10(min_dive_vel)
            * (p_diff_fus + 1.0) ** 0.2
            * ULF**0.3
        )
        dFusWt_dMinDiveVel = (
            c_fuselage
            * x
            * (fus_wt_full / 10000.0) ** 0.7
            * (fus_SA / 1000.0)
            * cabin_width
            * (cabin_len_tailboom + pylon_len) ** 0.5
            * 1
            / (min_dive_vel * np.log(10))
            * (p_diff_fus + 1.0) ** 0.2
            * ULF**0.3
        )
        dFusWt_dPdiffFus = (
            c_fuselage
            * x
            * (fus_wt_full / 10000.0) ** 0.7
            * (fus_SA / 1000.0)
            * cabin_width
            * (cabin_len_tailboom + pylon_len) ** 0.5
            * np.log10(min_dive_vel)
            * 0.2
            * (p_diff_fus + 1.0) ** (0.2 - 1)
            * ULF**0.3
        )
        dFusWt_dULF = (
            c_fuselage
            * x
            * (fus_wt_full / 10000.0) ** 0.7
            * (fus_SA / 1000.0)
            * cabin_width
            * (cabin_len_tailboom + pylon_len) ** 0.5
            * np.log10(min_dive_vel)
            * (p_diff_fus + 1.0) ** 0.2
            * 0.3
            * ULF ** (0.3 - 1)
        )
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_SCALER] = fus_wt / CK11 / GRAV_ENGLISH_LBM
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = (
            dFusWt_dCFus / GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuselage.MASS, 'fus_mass_full'] = dFusWt_dFusWtFull
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = dFusWt_dFusSA / GRAV_ENGLISH_LBM
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AVG_DIAMETER] = (
            dFusWt_dCabWidth / GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuselage.MASS, Aircraft.TailBoom.LENGTH] = dFusWt_dCabLenBoom / GRAV_ENGLISH_LBM
        J[Aircraft.Fuselage.MASS, 'pylon_len'] = dFusWt_dPylonLen / GRAV_ENGLISH_LBM
        J[Aircraft.Fuselage.MASS, 'min_dive_vel'] = dFusWt_dMinDiveVel / GRAV_ENGLISH_LBM
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.PRESSURE_DIFFERENTIAL] = (
            dFusWt_dPdiffFus / GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuselage.MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
            dFusWt_dULF / GRAV_ENGLISH_LBM
        )
        J[Aircraft.Fuselage.MASS, 'MAT'] = CK11


class BWBFuselageMass(om.ExplicitComponent):
    """
    Computation of the fuselage structure mass of BWB type aircraft. The empirical
    equation is completely different from tube and wing type aircraft.
    """

    def setup(self):
        add_aviary_input(self, Aircraft.Fuselage.CABIN_AREA, units='ft**2')
        add_aviary_input(self, Aircraft.Fuselage.MASS_COEFFICIENT, units='unitless')
        add_aviary_input(self, Aircraft.Design.GROSS_MASS, units='lbm')
        add_aviary_input(
            self, Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL, units='unitless'
        )
        add_aviary_input(self, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA, units='lbm/ft**2')
        add_aviary_input(self, Aircraft.Fuselage.WETTED_AREA, units='ft**2')
        add_aviary_input(self, Aircraft.Fuselage.MASS_SCALER)

        add_aviary_output(self, Aircraft.Fuselage.MASS, units='lbm')

    def setup_partials(self):
        self.declare_partials(
            Aircraft.Fuselage.MASS,
            [
                Aircraft.Fuselage.CABIN_AREA,
                Aircraft.Fuselage.WETTED_AREA,
                Aircraft.Fuselage.MASS_COEFFICIENT,
                Aircraft.Design.GROSS_MASS,
                Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL,
                Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA,
                Aircraft.Fuselage.MASS_SCALER,
            ],
        )

    def compute(self, inputs, outputs):
        c_fuselage = inputs[Aircraft.Fuselage.MASS_COEFFICIENT]
        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        area_cabin = inputs[Aircraft.Fuselage.CABIN_AREA]
        area_aft_to_total = inputs[Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL]
        uwt_aft = inputs[Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] * GRAV_ENGLISH_LBM
        fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]

        fus_wt_fb = c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
        fus_wt_ab = c_fuselage * fus_SA * area_aft_to_total * uwt_aft
        fus_wt = fus_wt_fb + fus_wt_ab

        outputs[Aircraft.Fuselage.MASS] = CK11 * fus_wt / GRAV_ENGLISH_LBM

    def compute_partials(self, inputs, J):
        c_fuselage = inputs[Aircraft.Fuselage.MASS_COEFFICIENT]
        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        area_cabin = inputs[Aircraft.Fuselage.CABIN_AREA]
        area_aft_to_total = inputs[Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL]
        uwt_aft = inputs[Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] * GRAV_ENGLISH_LBM
        fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]

        dFusWt_dc_fuselage = (
            1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
            + fus_SA * area_aft_to_total * uwt_aft
        ) / GRAV_ENGLISH_LBM
        dFusWt_dgross_wt_initial = (
            0.167 * c_fuselage * 1.8 * (gross_wt_initial**-0.833) * (area_cabin**1.06)
        )
        dFusWt_darea_cabin = (
            1.06 * c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**0.06)
        ) / GRAV_ENGLISH_LBM
        dFusWt_darea_aft_to_total = c_fuselage * fus_SA * uwt_aft / GRAV_ENGLISH_LBM
        dFusWt_duwt_aft = c_fuselage * fus_SA * area_aft_to_total
        dFusWt_dfus_SA = c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM

        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = CK11 * dFusWt_dc_fuselage
        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = CK11 * dFusWt_dgross_wt_initial
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = CK11 * dFusWt_darea_cabin
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL] = (
            CK11 * dFusWt_darea_aft_to_total
        )
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = CK11 * dFusWt_duwt_aft
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = CK11 * dFusWt_dfus_SA
        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_SCALER] = (
            c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
            + c_fuselage * fus_SA * area_aft_to_total * uwt_aft
        ) / GRAV_ENGLISH_LBM


class FuelMass(om.ExplicitComponent):
    """
    Computation of fuel masses including fuel carried, total propulsion group mass,
    and minimum value of fuel mass.
    """

    def setup(self):
        add_aviary_input(self, Aircraft.Fuel.FUEL_SYSTEM_MASS, units='lbm')
        add_aviary_input(self, Aircraft.Design.GROSS_MASS, units='lbm')
        add_aviary_input(self, Mission.OPERATING_MASS, units='lbm')
        self.add_input('payload_mass_des', units='lbm', desc='WPLDES: design payload')
        add_aviary_input(self, Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER, units='unitless')
        add_aviary_input(self, Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT, units='unitless')
        add_aviary_input(self, Aircraft.Fuel.DENSITY, units='lbm/galUS')

        self.add_input(
            'payload_mass_max',
            units='lbm',
            desc='WPLMAX: maximum payload that the aircraft is being asked to carry (design payload + cargo)',
        )

        add_aviary_input(self, Aircraft.Fuel.VOLUME_MARGIN, units='unitless')

        self.add_output('fuel_mass', units='lbm', desc='WFADES')
        self.add_output('fuel_mass_required', units='lbm', desc='WFAREQ')
        self.add_output(
            'fuel_mass_min',
            units='lbm',
            desc='WFAMIN: minimum value of fuel mass (set when max payload is carried)',
        )

    def setup_partials(self):
        self.declare_partials(
            'fuel_mass',
            [
                Aircraft.Design.GROSS_MASS,
                Mission.OPERATING_MASS,
                'payload_mass_des',
                Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER,
                Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT,
                Aircraft.Fuel.DENSITY,
                Aircraft.Fuel.VOLUME_MARGIN,
                Aircraft.Fuel.FUEL_SYSTEM_MASS,
            ],
        )
        self.declare_partials('fuel_mass_required', [Aircraft.Design.GROSS_MASS], val=1)
        self.declare_partials(
            'fuel_mass_required',
            [
                Mission.OPERATING_MASS,
                'payload_mass_des',
            ],
            val=-1,
        )
        self.declare_partials('fuel_mass_min', [Aircraft.Design.GROSS_MASS], val=1)
        self.declare_partials(
            'fuel_mass_min',
            [
                Mission.OPERATING_MASS,
                'payload_mass_max',
            ],
            val=-1,
        )

    def compute(self, inputs, outputs):
        fuel_sys_wt = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS] * GRAV_ENGLISH_LBM
        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        OEW = inputs[Mission.OPERATING_MASS] * GRAV_ENGLISH_LBM
        payload_wt_des = inputs['payload_mass_des'] * GRAV_ENGLISH_LBM
        CK21 = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER]
        c_mass_trend_fuel_sys = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT]
        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM
        payload_wt_max = inputs['payload_mass_max'] * GRAV_ENGLISH_LBM
        fuel_margin = inputs[Aircraft.Fuel.VOLUME_MARGIN]

        # GASP code is updated later than the following formula.
        outputs['fuel_mass'] = (
            (gross_wt_initial - OEW + fuel_sys_wt - payload_wt_des)
            / (1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel)
            / GRAV_ENGLISH_LBM
        )
        outputs['fuel_mass_required'] = (gross_wt_initial - OEW - payload_wt_des) / GRAV_ENGLISH_LBM
        outputs['fuel_mass_min'] = (gross_wt_initial - OEW - payload_wt_max) / GRAV_ENGLISH_LBM

    def compute_partials(self, inputs, J):
        fuel_sys_wt = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS] * GRAV_ENGLISH_LBM
        gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
        OEW = inputs[Mission.OPERATING_MASS] * GRAV_ENGLISH_LBM
        payload_wt_des = inputs['payload_mass_des'] * GRAV_ENGLISH_LBM
        CK21 = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER]
        c_mass_trend_fuel_sys = inputs[Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT]
        rho_fuel = inputs[Aircraft.Fuel.DENSITY] * GRAV_ENGLISH_LBM
        fuel_margin = inputs[Aircraft.Fuel.VOLUME_MARGIN]

        J['fuel_mass', Aircraft.Design.GROSS_MASS] = 1 / (
            1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel
        )
        J['fuel_mass', Mission.OPERATING_MASS] = -1 / (
            1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel
        )
        J['fuel_mass', 'payload_mass_des'] = -1 / (
            1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel
        )
        J['fuel_mass', Aircraft.Fuel.FUEL_SYSTEM_MASS] = 1 / (
            1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel
        )
        J['fuel_mass', Aircraft.Fuel.FUEL_SYSTEM_MASS_SCALER] = (
            -(gross_wt_initial - OEW + fuel_sys_wt - payload_wt_des)
            / (1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel) ** 2
            * c_mass_trend_fuel_sys
            * (1 + fuel_margin / 100)
            * 6.687
            / rho_fuel
            / GRAV_ENGLISH_LBM
        )
        J['fuel_mass', Aircraft.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT] = (
            -(gross_wt_initial - OEW + fuel_sys_wt - payload_wt_des)
            / (1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel) ** 2
            * CK21
            * (1 + fuel_margin / 100)
            * 6.687
            / rho_fuel
            / GRAV_ENGLISH_LBM
        )
        J['fuel_mass', Aircraft.Fuel.DENSITY] = (
            -(gross_wt_initial - OEW + fuel_sys_wt - payload_wt_des)
            / (1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel) ** 2
            * (-CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel**2)
        )
        J['fuel_mass', Aircraft.Fuel.VOLUME_MARGIN] = (
            -(gross_wt_initial - OEW + fuel_sys_wt - payload_wt_des)
            / (1.0 + CK21 * c_mass_trend_fuel_sys * (1 + fuel_margin / 100) * 6.687 / rho_fuel) ** 2
            * CK21
            * c_mass_trend_fuel_sys
            * (1 / 100)
            * 6.687
            / rho_fuel
            / GRAV_ENGLISH_LBM
        )
