"""Small things the data checks share."""
import numpy as np
from openmdao.utils.units import convert_units

COMP = {'ft': ['m', 'inch'], 'lbm': ['kg', 'slug'], 'ft**2': ['m**2', 'inch**2'], 'deg': ['rad'], 'lbf': ['N', 'kN'], 'inch': ['ft', 'm'], 'ft/s': ['m/s', 'kn'],
        'lbm/h': ['kg/s'], 's': ['h', 'min'], 'NM': ['km', 'ft'], 'm/s': ['ft/s'], 'lbf/ft**2': ['psi', 'Pa'], 'rpm': ['rad/s'], 'hp': ['kW'], 'kn': ['m/s'],
        'psi': ['Pa'], 'ft**3': ['m**3'], 'lbm/ft**2': ['kg/m**2'], 'h': ['s'], 'min': ['s'], 'kW': ['hp'], 'rad': ['deg'], 'lbm/lbf': ['kg/N'], 'lbf*ft': ['N*m'],
        'lbm/ft**3': ['kg/m**3']}


def pick_units(rng, u, p=0.5):
    return str(rng.choice(COMP[u])) if u in COMP and rng.random() < p else u


def conv(x, a, b):
    if a == b or a == 'unitless' or b == 'unitless':
        return x
    if isinstance(x, (list, np.ndarray)):
        return [float(convert_units(v, a, b)) for v in x]
    return float(convert_units(x, a, b))
