"""Define utilities for calculating landing EOMs."""

import numpy as np
import openmdao.api as om

from aviary_ref.mission.energy_state.ode.takeoff_eom import (
    Accelerations,
    DistanceRates,
    FlightPathAngleRate,
    VelocityRate,
)
from aviary_ref.variable_info.functions import add_aviary_input, add_aviary_option
from aviary_ref.variable_info.variables import Dynamic, Mission


class FlareEOM(om.Group):
    """Define a group for calculating equations of motion from start of flare to touchdown."""

    def initialize(self):
        self.options.declare('num_nodes', default=1, types=int, lower=0)

    def setup(self):
        nn = self.options['num_nodes']

        inputs = [Dynamic.Mission.FLIGHT_PATH_ANGLE, Dynamic.Mission.VELOCITY]
        outputs = [Dynamic.Mission.DISTANCE_RATE, Dynamic.Mission.ALTITUDE_RATE]

        self.add_subsystem(
            'distance_rates',
            DistanceRates(num_nodes=nn, climbing=True),
            promotes_inputs=inputs,
            promotes_outputs=outputs,
        )

        inputs = [
            Dynamic.Vehicle.MASS,
            Dynamic.Vehicle.LIFT,
            Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
            Dynamic.Vehicle.DRAG,
            Dynamic.Vehicle.ANGLE_OF_ATTACK,
            Dynamic.Mission.FLIGHT_PATH_ANGLE,
        ]

        outputs = ['forces_horizontal', 'forces_vertical']

        self.add_subsystem(
            'sum_forces',
            FlareSumForces(num_nodes=nn),
            promotes_inputs=inputs,
            promotes_outputs=outputs,
        )

        inputs = ['forces_horizontal', 'forces_vertical', Dynamic.Vehicle.MASS]
        outputs = ['acceleration_horizontal', 'acceleration_vertical']

        self.add_subsystem(
            'accelerations',
            Accelerations(num_nodes=nn),
            promotes_inputs=inputs,
            promotes_outputs=outputs,
        )

        inputs = [
            'acceleration_horizontal',
            'acceleration_vertical',
            Dynamic.Mission.DISTANCE_RATE,
            Dynamic.Mission.ALTITUDE_RATE,
        ]

        outputs = [
            Dynamic.Mission.VELOCITY_RATE,
        ]

        self.add_subsystem(
            'velocity_rate',
            VelocityRate(num_nodes=nn),
            promotes_inputs=inputs,
            promotes_outputs=outputs,
        )

        inputs = [
            Dynamic.Mission.DISTANCE_RATE,
            Dynamic.Mission.ALTITUDE_RATE,
            'acceleration_horizontal',
            'acceleration_vertical',
        ]

        outputs = [Dynamic.Mission.FLIGHT_PATH_ANGLE_RATE]

        self.add_subsystem(
            'flight_path_angle_rate',
            FlightPathAngleRate(num_nodes=nn),
            promotes_inputs=inputs,
            promotes_outputs=outputs,
        )

        inputs = [
            Dynamic.Vehicle.MASS,
            Dynamic.Vehicle.LIFT,
            Dynamic.Vehicle.DRAG,
            Dynamic.Vehicle.ANGLE_OF_ATTACK,
            Dynamic.Mission.FLIGHT_PATH_ANGLE,
        ]

        outputs = ['forces_perpendicular', 'required_thrust']

        self.add_subsystem(
            'glide_slope_forces',
            GlideSlopeForces(num_nodes=nn),
            promotes_inputs=inputs,
            promotes_outputs=outputs,
        )

        expr = 'net_alpha_rate = flare_rate - angle_of_attack_rate'
        flare_comp = om.ExecComp(
            expr,
            flare_rate={'shape': 1, 'units': 'deg/s'},
            angle_of_attack_rate={'shape': nn, 'units': 'deg/s'},
            net_alpha_rate={'shape': nn, 'units': 'deg/s'},
            has_diag_partials=True,
        )
        self.add_subsystem(
            'flare_rate',
            flare_comp,
            promotes_inputs=[('flare_rate', Mission.Landing.FLARE_RATE), 'angle_of_attack_rate'],
            promotes_outputs=['net_alpha_rate'],
        )


class GlideSlopeForces(om.ExplicitComponent):
    """Define a component for calculating forces for evaluation of glide slope criteria."""

    def initialize(self):
        self.options.declare('num_nodes', default=1, types=int, lower=0)

        add_aviary_option(self, Mission.GRAVITY, units='m/s**2')
        add_aviary_option(self, Mission.Takeoff.ANGLE_OF_ATTACK_RUNWAY, units='rad')
        add_aviary_option(self, Mission.Takeoff.THRUST_INCIDENCE, units='rad')

    def setup(self):
        nn = self.options['num_nodes']

        add_aviary_input(self, Dynamic.Vehicle.MASS, shape=nn, units='kg')
        add_aviary_input(self, Dynamic.Vehicle.LIFT, shape=nn, units='N')
        add_aviary_input(self, Dynamic.Vehicle.DRAG, shape=nn, units='N')
        add_aviary_input(self, Dynamic.Vehicle.ANGLE_OF_ATTACK, shape=nn, units='rad')
        add_aviary_input(self, Dynamic.Mission.FLIGHT_PATH_ANGLE, shape=nn, units='rad')

        self.add_output(
            'forces_perpendicular',
            val=np.zeros(nn),
            units='N',
            desc='current forces perpendicular to the thrust vector; checking for zero'
            ' perpendicular force',
        )

        self.add_output(
            'required_thrust',
            val=np.zeros(nn),
            units='N',
            desc='current estimate of thrust required to maintain glide slope',
        )

    def setup_partials(self):
        nn = self.options['num_nodes']

        rows_cols = np.arange(nn)

        self.declare_partials('*', '*', rows=rows_cols, cols=rows_cols)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        alpha0 = self.options[Mission.Takeoff.ANGLE_OF_ATTACK_RUNWAY][0]
        t_inc = self.options[Mission.Takeoff.THRUST_INCIDENCE][0]
        grav_metric = self.options[Mission.GRAVITY][0]

        mass = inputs[Dynamic.Vehicle.MASS]
        lift = inputs[Dynamic.Vehicle.LIFT]
        drag = inputs[Dynamic.Vehicle.DRAG]

        weight = mass * grav_metric

        alpha = inputs[Dynamic.Vehicle.ANGLE_OF_ATTACK]
        gamma = inputs[Dynamic.Mission.FLIGHT_PATH_ANGLE]

        # FLOPS measures glideslope below horizontal
        gamma = -gamma

        angle = alpha - alpha0 + t_inc

        c_angle = np.cos(angle)
        s_angle = np.sin(angle)

        c_gamma = np.cos(gamma)
        s_gamma = np.sin(gamma)

        # NOTE using FLOPS LNDING
        #    - section: BEGIN ITERATION ON START OF FLARE ALTITUDE...
        #    - variables: FORCH, FORCV, DELFOR(K), THRU
        f_h = (drag - weight * s_gamma) / c_angle
        f_v = (weight * c_gamma - lift) / s_angle

        outputs['forces_perpendicular'] = f_h - f_v
        outputs['required_thrust'] = (f_h + f_v) / (2.0)

    def compute_partials(self, inputs, J, discrete_inputs=None):
        alpha0 = self.options[Mission.Takeoff.ANGLE_OF_ATTACK_RUNWAY][0]
        t_inc = self.options[Mission.Takeoff.THRUST_INCIDENCE][0]
        grav_metric = self.options[Mission.GRAVITY][0]

        mass = inputs[Dynamic.Vehicle.MASS]
        lift = inputs[Dynamic.Vehicle.LIFT]
        drag = inputs[Dynamic.Vehicle.DRAG]

        weight = mass * grav_metric

        alpha = inputs[Dynamic.Vehicle.ANGLE_OF_ATTACK]
        gamma = inputs[Dynamic.Mission.FLIGHT_PATH_ANGLE]

        # FLOPS measures glideslope below horizontal
        gamma = -gamma

        angle = alpha - alpha0 + t_inc

        c_angle = np.cos(angle)
        s_angle = np.sin(angle)

        c_gamma = np.cos(gamma)
        s_gamma = np.sin(gamma)

        forces_key = 'forces_perpendicular'
        thrust_key = 'required_thrust'

        f_h = -grav_metric * s_gamma / c_angle
        f_v = grav_metric * c_gamma / s_angle

        J[forces_key, Dynamic.Vehicle.MASS] = f_h - f_v
        J[thrust_key, Dynamic.Vehicle.MASS] = (f_h + f_v) / (2.0)

        f_h = 0.0
        f_v = -1.0 / s_angle

        J[forces_key, Dynamic.Vehicle.LIFT] = -f_v
        J[thrust_key, Dynamic.Vehicle.LIFT] = f_v / (2.0)

        f_h = 1.0 / c_angle
        f_v = 0.0

        J[forces_key, Dynamic.Vehicle.DRAG] = f_h
        J[thrust_key, Dynamic.Vehicle.DRAG] = f_h / (2.0)

        # ddx(1 / cos(x)) = sec(x) * tan(x) = tan(x) / cos(x)
        # ddx(1 / sin(x)) = -csc(x) * cot(x) = -1 / (sin(x) * tan(x))
        t_angle = np.tan(angle)

        f_h = t_angle * (drag - weight * s_gamma) / c_angle
        f_v = -(weight * c_gamma - lift) / (s_angle * t_angle)

        J[forces_key, Dynamic.Vehicle.ANGLE_OF_ATTACK] = f_h - f_v
        J[thrust_key, Dynamic.Vehicle.ANGLE_OF_ATTACK] = (f_h + f_v) / (2.0)

        f_h = -weight * c_gamma / c_angle
        f_v = -weight * s_gamma / s_angle

        J[forces_key, Dynamic.Mission.FLIGHT_PATH_ANGLE] = -f_h + f_v
        J[thrust_key, Dynamic.Mission.FLIGHT_PATH_ANGLE] = -(f_h + f_v) / (2.0)


class FlareSumForces(om.ExplicitComponent):
    """
    Define a component for calculating the separate sums for both the horizontal and
    vertical forces from start of flare to landing.
    """

    def initialize(self):
        self.options.declare('num_nodes', default=1, types=int, lower=0)

        add_aviary_option(self, Mission.GRAVITY, units='m/s**2')
        add_aviary_option(self, Mission.Takeoff.ANGLE_OF_ATTACK_RUNWAY, units='rad')
        add_aviary_option(self, Mission.Takeoff.THRUST_INCIDENCE, units='rad')

    def setup(self):
        nn = self.options['num_nodes']

        add_aviary_input(self, Dynamic.Vehicle.MASS, shape=nn, units='kg')
        add_aviary_input(self, Dynamic.Vehicle.LIFT, shape=nn, units='N')
        add_aviary_input(self, Dynamic.Vehicle.Propulsion.THRUST_TOTAL, shape=nn, units='N')
        add_aviary_input(self, Dynamic.Vehicle.DRAG, shape=nn, units='N')
        add_aviary_input(self, Dynamic.Vehicle.ANGLE_OF_ATTACK, shape=nn, units='rad')
        add_aviary_input(self, Dynamic.Mission.FLIGHT_PATH_ANGLE, shape=nn, units='rad')

        self.add_output(
            'forces_horizontal',
            val=np.zeros(nn),
            units='N',
            desc='current sum of forces in the horizontal direction',
        )

        self.add_output(
            'forces_vertical',
            val=np.zeros(nn),
            units='N',
            desc='current sum of forces in the vertical direction',
        )

    def setup_partials(self):
        nn = self.options['num_nodes']

        grav_metric = self.options[Mission.GRAVITY][0]

        rows_cols = np.arange(nn)

        self.declare_partials('forces_horizontal', Dynamic.Vehicle.MASS, dependent=False)

        self.declare_partials(
            'forces_vertical',
            Dynamic.Vehicle.MASS,
            val=-grav_metric,
            rows=rows_cols,
            cols=rows_cols,
        )

        wrt = [
            Dynamic.Vehicle.LIFT,
            Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
            Dynamic.Vehicle.DRAG,
            Dynamic.Vehicle.ANGLE_OF_ATTACK,
            Dynamic.Mission.FLIGHT_PATH_ANGLE,
        ]

        self.declare_partials('*', wrt, rows=rows_cols, cols=rows_cols)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        alpha0 = self.options[Mission.Takeoff.ANGLE_OF_ATTACK_RUNWAY][0]
        t_inc = self.options[Mission.Takeoff.THRUST_INCIDENCE][0]
        grav_metric = self.options[Mission.GRAVITY][0]

        mass = inputs[Dynamic.Vehicle.MASS]
        lift = inputs[Dynamic.Vehicle.LIFT]
        thrust = inputs[Dynamic.Vehicle.Propulsion.THRUST_TOTAL]
        drag = inputs[Dynamic.Vehicle.DRAG]

        alpha = inputs[Dynamic.Vehicle.ANGLE_OF_ATTACK]
        gamma = inputs[Dynamic.Mission.FLIGHT_PATH_ANGLE]

        # FLOPS measures glideslope below horizontal
        gamma = -gamma

        weight = mass * grav_metric

        angle = alpha - alpha0 + t_inc - gamma

        c_angle = np.cos(angle)
        s_angle = np.sin(angle)

        c_gamma = np.cos(gamma)
        s_gamma = np.sin(gamma)

        # NOTE using FLOPS LNDING
        #    - section: COMPUTE TRAJECTORY FROM START OF FLARE TO LANDING
        #    - variables: FORCH, FORCV
        f_h = drag * c_gamma - lift * s_gamma - thrust * c_angle
        outputs['forces_horizontal'] = f_h

        f_v = lift * c_gamma + drag * s_gamma - weight + thrust * s_angle
        outputs['forces_vertical'] = f_v

    def compute_partials(self, inputs, J, discrete_inputs=None):
        alpha0 = self.options[Mission.Takeoff.ANGLE_OF_ATTACK_RUNWAY][0]
        t_inc = self.options[Mission.Takeoff.THRUST_INCIDENCE][0]

        lift = inputs[Dynamic.Vehicle.LIFT]
        thrust = inputs[Dynamic.Vehicle.Propulsion.THRUST_TOTAL]
        drag = inputs[Dynamic.Vehicle.DRAG]

        alpha = inputs[Dynamic.Vehicle.ANGLE_OF_ATTACK]
        gamma = inputs[Dynamic.Mission.FLIGHT_PATH_ANGLE]

        # FLOPS measures glideslope below horizontal
        gamma = -gamma

        angle = alpha - alpha0 + t_inc - gamma

        c_angle = np.cos(angle)
        s_angle = np.sin(angle)

        c_gamma = np.cos(gamma)
        s_gamma = np.sin(gamma)

        f_h_key = 'forces_horizontal'
        J[f_h_key, Dynamic.Vehicle.LIFT] = -s_gamma

        f_v_key = 'forces_vertical'
        J[f_v_key, Dynamic.Vehicle.LIFT] = c_gamma

        J[f_h_key, Dynamic.Vehicle.Propulsion.THRUST_TOTAL] = -c_angle
        J[f_v_key, Dynamic.Vehicle.Propulsion.THRUST_TOTAL] = s_angle

        J[f_h_key, Dynamic.Vehicle.DRAG] = c_gamma
        J[f_v_key, Dynamic.Vehicle.DRAG] = s_gamma

        J[f_h_key, Dynamic.Vehicle.ANGLE_OF_ATTACK] = thrust * s_angle
        J[f_v_key, Dynamic.Vehicle.ANGLE_OF_ATTACK] = thrust * c_angle

        f_h = -drag * s_gamma - lift * c_gamma - thrust * s_angle
        J[f_h_key, Dynamic.Mission.FLIGHT_PATH_ANGLE] = -f_h

        f_v = -lift * s_gamma + drag * c_gamma - thrust * c_angle
        J[f_v_key, Dynamic.Mission.FLIGHT_PATH_ANGLE] = -f_v


class GroundSumForces(om.ExplicitComponent):
    """
    Define a component for calculating the separate sums for both the horizontal and
    vertical forces from start of touchdown through full stop.
    """

    def initialize(self):
        options = self.options

        options.declare('num_nodes', default=1, types=int, lower=0)

        options.declare(
            'friction_coefficient',
            default=0.025,
            desc='current friction coefficient, either rolling friction or breaking friction',
        )

        add_aviary_option(self, Mission.GRAVITY, units='m/s**2')

    def setup(self):
        nn = self.options['num_nodes']

        add_aviary_input(self, Dynamic.Vehicle.MASS, shape=nn, units='kg')
        add_aviary_input(self, Dynamic.Vehicle.LIFT, shape=nn, units='N')
        add_aviary_input(self, Dynamic.Vehicle.Propulsion.THRUST_TOTAL, shape=nn, units='N')
        add_aviary_input(self, Dynamic.Vehicle.DRAG, shape=nn, units='N')

        self.add_output(
            'forces_horizontal',
            val=np.zeros(nn),
            units='N',
            desc='current sum of forces in the horizontal direction',
        )

        self.add_output(
            'forces_vertical',
            val=np.zeros(nn),
            units='N',
            desc='current sum of forces in the vertical direction',
        )

    def setup_partials(self):
        nn = self.options['num_nodes']

        grav_metric = self.options[Mission.GRAVITY][0]

        rows_cols = np.arange(nn)

        self.declare_partials(
            'forces_vertical',
            Dynamic.Vehicle.MASS,
            val=-grav_metric,
            rows=rows_cols,
            cols=rows_cols,
        )

        self.declare_partials(
            'forces_vertical', Dynamic.Vehicle.LIFT, val=1.0, rows=rows_cols, cols=rows_cols
        )

        self.declare_partials(
            'forces_vertical',
            [Dynamic.Vehicle.Propulsion.THRUST_TOTAL, Dynamic.Vehicle.DRAG],
            dependent=False,
        )

        self.declare_partials(
            'forces_horizontal',
            [Dynamic.Vehicle.MASS, Dynamic.Vehicle.LIFT],
            rows=rows_cols,
            cols=rows_cols,
        )

        self.declare_partials(
            'forces_horizontal',
            Dynamic.Vehicle.Propulsion.THRUST_TOTAL,
            val=-1.0,
            rows=rows_cols,
            cols=rows_cols,
        )

        self.declare_partials(
            'forces_horizontal', Dynamic.Vehicle.DRAG, val=1.0, rows=rows_cols, cols=rows_cols
        )

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        options = self.options

        nn = options['num_nodes']
        friction_coefficient = options['friction_coefficient']

        grav_metric = self.options[Mission.GRAVITY][0]

        mass = inputs[Dynamic.Vehicle.MASS]
        lift = inputs[Dynamic.Vehicle.LIFT]
        thrust = inputs[Dynamic.Vehicle.Propulsion.THRUST_TOTAL]
        drag = inputs[Dynamic.Vehicle.DRAG]

        weight = mass * grav_metric

        f_v = lift - weight
        outputs['forces_vertical'] = f_v

        idx_sup = np.where(f_v < 0.0)
        friction = np.zeros(nn)
        friction[idx_sup] = -friction_coefficient * f_v[idx_sup]

        f_h = friction + drag - thrust
        outputs['forces_horizontal'] = f_h

    def compute_partials(self, inputs, J, discrete_inputs=None):
        options = self.options

        nn = options['num_nodes']
        friction_coefficient = options['friction_coefficient']

        grav_metric = self.options[Mission.GRAVITY][0]

        mass = inputs[Dynamic.Vehicle.MASS]
        lift = inputs[Dynamic.Vehicle.LIFT]

        weight = mass * grav_metric

        f_v = lift - weight

        idx_sup = np.where(f_v < 0.0)
        friction = np.zeros(nn)
        friction[idx_sup] = friction_coefficient * grav_metric

        J['forces_horizontal', Dynamic.Vehicle.MASS] = friction

        friction = np.zeros(nn)
        friction[idx_sup] = -friction_coefficient
        J['forces_horizontal', Dynamic.Vehicle.LIFT] = friction
