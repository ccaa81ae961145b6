import numpy as np
import openmdao.api as om
from aviary_ref.variable_info.functions import add_aviary_input

from aviary_ref.variable_info.variables import Dynamic


class SpeedConstraints(om.ExplicitComponent):
    """Compute value of speed constraints for both mach and EAS.

    Values above 0 exceed the target maximums. This is generally used with a KS comp during
    climb and descent phases. Depending on the choices for the values, one or the other
    may be the active constraint at a given trajectory point.

    TODO: The mach constraint is scaled by the target EAS max. It might be better scaling
    to normalize the EAS constraint by EAS_target instead.
    """

    def initialize(self):
        self.options.declare('num_nodes', types=int)
        self.options.declare(
            'EAS_target',
            default=0,
            desc='Target equivalent airspeed in knots assuming mach constraint is satisfied',
        )
        self.options.declare('mach_target', default=0, desc='targeted cruise Mach number')

    def setup(self):
        nn = self.options['num_nodes']

        self.add_input(
            'EAS',
            val=np.ones(nn),
            units='kn',
            desc='equivalent airspeed',
        )
        add_aviary_input(
            self,
            Dynamic.Atmosphere.MACH,
            shape=nn,
            units='unitless',
        )

        self.add_output(
            'speed_constraint',
            val=np.ones((nn, 2)),
            units='unitless',
            desc='constraint to be driven to zero in order to control speed',
        )

    def setup_partials(self):
        nn = self.options['num_nodes']
        arange = np.arange(nn)

        self.declare_partials('speed_constraint', 'EAS', rows=arange * 2, cols=arange, val=1.0)
        self.declare_partials(
            'speed_constraint',
            Dynamic.Atmosphere.MACH,
            rows=arange * 2 + 1,
            cols=arange,
            val=self.options['EAS_target'],
        )

    def compute(self, inputs, outputs):
        EAS = inputs['EAS']
        EAS_target = self.options['EAS_target']
        mach = inputs[Dynamic.Atmosphere.MACH]
        mach_target = self.options['mach_target']

        EAS_constraint = EAS - EAS_target
        EAS_constraint = EAS_constraint[:, np.newaxis]
        mach_constraint = EAS_target * (mach - mach_target)
        mach_constraint = mach_constraint[:, np.newaxis]
        outputs['speed_constraint'] = np.hstack((EAS_constraint, mach_constraint))
