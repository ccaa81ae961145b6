import openmdao
import openmdao.api as om
from packaging import version

from aviary_ref.utils.aviary_values import AviaryValues
from aviary_ref.variable_info.functions import override_aviary_vars
from aviary_ref.variable_info.variable_meta_data import CoreMetaData


class CorePreMission(om.Group):
    """
    Group that contains all pre-mission groups of core Aviary subsystems (geometry, mass,
    propulsion, aerodynamics).
    """

    def initialize(self):
        self.options.declare(
            'aviary_options',
            types=AviaryValues,
            desc='collection of Aircraft/Mission specific options',
        )
        self.options.declare('subsystems', desc='list of subsystem builders')
        self.options.declare(
            'subsystem_options',
            desc='dictionary containing all options for the subsystems in premission',
        )
        self.options.declare('meta_data', desc='problem metadata', default=CoreMetaData)

        # NOTE this flag is only needed for tests - in AviaryProblem it should always be False
        self.options.declare(
            'process_overrides',
            types=bool,
            default=True,
            desc='When True, overrides are handled here, otherwise, they are handled in the parent '
            'system.',
        )

    def setup(self, **kwargs):
        # rely on openMDAO's auto-ordering for this group
        self.options['auto_order'] = True

        aviary_options = self.options['aviary_options']
        subsystems = self.options['subsystems']
        all_subsystem_options = self.options['subsystem_options']

        for subsystem in subsystems:
            name = subsystem.name
            subsystem_options = all_subsystem_options.get(name, {})

            pre_mission_system = subsystem.build_pre_mission(
                aviary_options, subsystem_options=subsystem_options
            )

            if pre_mission_system is not None:
                self.add_subsystem(
                    name,
                    pre_mission_system,
                    promotes_inputs=['*'],
                    promotes_outputs=['*'],
                )

    def configure(self):
        self.code_origin_overrides = []
        for subsystem in self.options['subsystems']:
            try:
                self.code_origin_overrides.extend(
                    getattr(getattr(self, subsystem.name), 'code_origin_overrides')
                )
            except:
                continue

        if self.options['process_overrides']:
            override_aviary_vars(
                self,
                self.options['aviary_options'],
                code_origin_overrides=self.code_origin_overrides,
            )
