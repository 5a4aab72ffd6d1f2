"""Stand-in for the drawing and boundary functions of scikit-image."""
__version__ = '0.13-standin'
from . import draw, segmentation
