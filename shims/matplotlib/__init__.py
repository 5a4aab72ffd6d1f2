"""Stand-in for ``matplotlib.path.Path``."""
__version__ = '2.0-standin'
