from aviary_ref.subsystems.aerodynamics.gasp_based.flaps_model.flaps_model import FlapsGroup
