from aviary_ref.subsystems.propulsion.engine_deck import EngineDeck
from aviary_ref.utils.aviary_values import AviaryValues
from aviary_ref.utils.functions import get_path
from aviary_ref.utils.preprocessors import preprocess_propulsion
from aviary_ref.variable_info.variable_meta_data import CoreMetaData
from aviary_ref.variable_info.variables import Aircraft


def get_option_defaults(engine=True, meta_data=CoreMetaData) -> AviaryValues:
    """
    Returns a deep copy of the collection of all options for which default values exist.

    Parameters
    ----------
    engine : bool
        If true, the collection includes the default engine model
    meta_data : dict
        Dictionary containing metadata for the options. If None, Aviary's built-in
        metadata will be used.
    """
    option_defaults = AviaryValues()

    # Load all variables marked as options in the MetaData
    for key in meta_data:
        var = meta_data[key]
        if var['option'] and var['default_value'] is not None:
            option_defaults.set_val(key, var['default_value'], var['units'])

    if engine:
        engine_options = option_defaults.deepcopy()
        engine_options.set_val(
            Aircraft.Engine.DATA_FILE, get_path('models/engines/turbofan_23k_1.csv')
        )
        engine_options.set_val(Aircraft.Engine.REFERENCE_SLS_THRUST, 28690, 'lbf')
        engine_deck = EngineDeck(options=engine_options)
        preprocess_propulsion(option_defaults, [engine_deck])

    return option_defaults


def is_option(key, meta_data=CoreMetaData) -> bool:
    """
    Returns True if the variable is defined as an option in the MetaData.

    Parameters
    ----------
    key: str
        Name of the variable to be checked
    meta_data : dict
        Dictionary containing metadata for the variable. If None, Aviary's built-in
        metadata will be used.
    """
    return meta_data[key]['option']
