__version__ = '1.0.3-dev'
