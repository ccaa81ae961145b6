import openmdao.api as om

from aviary_ref.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
from aviary_ref.variable_info.variables import Aircraft


class SizeEngine(om.ExplicitComponent):
    """
    Calculates thrust scaling factors for mission performance parameters. Designed for
    use with EngineDecks.

    Can be vectorized for all unique engines present on aircraft. Each index represents a
    single instance of an engine model.
    """

    def setup(self):
        add_aviary_input(self, Aircraft.Engine.REFERENCE_SLS_THRUST, units='lbf')
        add_aviary_input(self, Aircraft.Engine.SCALE_FACTOR)

        add_aviary_output(self, Aircraft.Engine.SCALED_SLS_THRUST, units='lbf')

        # variables that also may require scaling
        # TODO - inlet_weight <input>
        # TODO - inlet_weight_scaling_exp <option>
        # TODO - nozzle_weight
        # TODO - nacelle_avg_length: function of sqrt(scale_factor)
        # TODO - nacelle_avg_diam: function of sqrt(scale_factor)
        # TODO - nacelle_wetted_area: if length, diam get scaled - this should be covered by geom

    def compute(self, inputs, outputs):
        reference_sls_thrust = inputs[Aircraft.Engine.REFERENCE_SLS_THRUST]

        engine_scale_factor = inputs[Aircraft.Engine.SCALE_FACTOR]

        # engine scale factor is ratio of scaled thrust target and reference thrust
        scaled_sls_thrust = engine_scale_factor * reference_sls_thrust

        outputs[Aircraft.Engine.SCALED_SLS_THRUST] = scaled_sls_thrust

    def setup_partials(self):
        self.declare_partials(Aircraft.Engine.SCALED_SLS_THRUST, Aircraft.Engine.SCALE_FACTOR)
        self.declare_partials(
            Aircraft.Engine.SCALED_SLS_THRUST, Aircraft.Engine.REFERENCE_SLS_THRUST
        )

    def compute_partials(self, inputs, J):
        engine_scale_factor = inputs[Aircraft.Engine.SCALE_FACTOR]
        reference_sls_thrust = inputs[Aircraft.Engine.REFERENCE_SLS_THRUST]

        J[Aircraft.Engine.SCALED_SLS_THRUST, Aircraft.Engine.SCALE_FACTOR] = reference_sls_thrust
        J[Aircraft.Engine.SCALED_SLS_THRUST, Aircraft.Engine.REFERENCE_SLS_THRUST] = (
            engine_scale_factor
        )
