"""Stand-in for the few scipy functions crowddynamics uses."""
__version__ = '0.19-standin'
from . import stats, spatial, interpolate
