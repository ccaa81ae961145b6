"""
Define subsystem builder for Aviary core geometry.

Classes
-------
GeometryBuilder: the interface for a geometry subsystem builder.

CoreGeometryBuilder : the interface for Aviary's core geometry subsystem builder
"""

from aviary_ref.interface.utils import write_markdown_variable_table
from aviary_ref.subsystems.geometry.combined_geometry import CombinedGeometry
from aviary_ref.subsystems.geometry.flops_based.prep_geom import PrepGeom
from aviary_ref.subsystems.geometry.gasp_based.size_group import SizeGroup
from aviary_ref.subsystems.subsystem_builder import SubsystemBuilder
from aviary_ref.variable_info.enums import LegacyCode
from aviary_ref.variable_info.variables import Aircraft

GASP = LegacyCode.GASP
FLOPS = LegacyCode.FLOPS


class GeometryBuilder(SubsystemBuilder):
    """
    Base geometry builder.

    Methods
    -------
    __init__(self, name=None, meta_data=None):
        Initializes the GeometryBuilder object with a given name.
    """

    _default_name = 'geometry'


class CoreGeometryBuilder(GeometryBuilder):
    """
    Core geometry builder.

    Methods
    -------
    __init__(self, name=None, meta_data=None, code_origin=None,
        code_origin_to_prioritize=None):
    build_pre_mission(self, aviary_inputs) -> openmdao.core.System:
        Builds an OpenMDAO system for the pre-mission computations of the subsystem.
    build_mission(self, num_nodes, aviary_inputs, **kwargs) -> openmdao.core.System:
        Builds an OpenMDAO system for the mission computations of the subsystem.
    report(self, prob, reports_folder, **kwargs):
        Generate the report for Aviary core geometry analysis.
    """

    def __init__(
        self,
        name=None,
        meta_data=None,
        code_origin=None,
        code_origin_to_prioritize=None,
    ):
        if name is None:
            name = 'geometry'

        if code_origin not in (FLOPS, GASP) and set(code_origin) != set((FLOPS, GASP)):
            raise ValueError('Code origin is not one of the following: (FLOPS, GASP)')

        self.code_origin = code_origin
        self.use_both_geometries = code_origin == (FLOPS, GASP)
        self.code_origin_to_prioritize = code_origin_to_prioritize

        super().__init__(name=name, meta_data=meta_data)

    def build_pre_mission(self, aviary_inputs, subsystem_options=None):
        code_origin = self.code_origin
        both_geom = self.use_both_geometries
        code_origin_to_prioritize = self.code_origin_to_prioritize
        try:
            method = subsystem_options['method']
        except KeyError:
            method = None

        geom_group = None

        if method != 'external':
            if both_geom:
                geom_group = CombinedGeometry(code_origin_to_prioritize=code_origin_to_prioritize)

            elif code_origin is GASP:
                geom_group = SizeGroup()
                geom_group.code_origin_overrides = None

            elif code_origin is FLOPS:
                geom_group = PrepGeom()
                geom_group.code_origin_overrides = None

        return geom_group

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        # by default there is no geom mission, but call super for safety/future-proofing
        try:
            method = subsystem_options['method']
        except KeyError:
            method = None
        geom_group = None

        if method != 'external':
            geom_group = super().build_mission(
                num_nodes, aviary_inputs, user_options, subsystem_options
            )

        return geom_group

    def report(self, prob, reports_folder, **kwargs):
        """
        Generate the report for Aviary core geometry analysis.

        Parameters
        ----------
        prob : AviaryProblem
            The AviaryProblem that will be used to generate the report
        reports_folder : Path
            Location of the subsystems_report folder this report will be placed in
        """
        filename = self.name + '.md'
        filepath = reports_folder / filename

        # TODO output differs by method
        # TODO finish variables of interest
        wing_outputs = [
            Aircraft.Wing.AREA,
            Aircraft.Wing.SPAN,
            Aircraft.Wing.ASPECT_RATIO,
            Aircraft.Wing.SWEEP,
        ]
        htail_outputs = [Aircraft.HorizontalTail.AREA]
        vtail_outputs = [Aircraft.VerticalTail.AREA]
        fuselage_outputs = [Aircraft.Fuselage.LENGTH]

        if self.code_origin is FLOPS or self.use_both_geometries:
            fuselage_outputs.append(Aircraft.Fuselage.REF_DIAMETER)
        if self.code_origin is GASP or self.use_both_geometries:
            fuselage_outputs.append(Aircraft.Fuselage.AVG_DIAMETER)

        with open(filepath, mode='w') as f:
            if self.use_both_geometries:
                method = 'FLOPS and GASP methods'
            else:
                method = self.code_origin.value + ' method'
            f.write(f'# Geometry: {method}\n')
            f.write('## Wing')
            write_markdown_variable_table(f, prob, wing_outputs, self.meta_data)
            f.write('\n## Empennage\n')
            f.write('### Horizontal Tail')
            write_markdown_variable_table(f, prob, htail_outputs, self.meta_data)
            f.write('### Vertical Tail')
            write_markdown_variable_table(f, prob, vtail_outputs, self.meta_data)
            f.write('\n## Fuselage')
            write_markdown_variable_table(f, prob, fuselage_outputs, self.meta_data)
