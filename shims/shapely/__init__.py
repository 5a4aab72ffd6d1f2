"""Pure Python stand-in for Shapely 1.x (GEOS is not installed here)."""
__version__ = '1.6.0-standin'
from . import speedups
