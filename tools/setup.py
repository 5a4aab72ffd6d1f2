"""setup_cmd: nothing is compiled; check that interpreter, third-party modules
and stand-ins import (run.py re-imports the code under test on every run)."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'shims'))
import vcompat
vcompat.install()
import numpy, configobj, traitlets, traittypes, anytree, sortedcontainers, click
import numba, shapely.geometry, shapely.ops, scipy.stats, scipy.spatial
import scipy.interpolate, skfmm, cell_lists, skimage, matplotlib.path, bokeh
from shapely.geometry import Point, Polygon
assert Polygon([(0, 0), (1, 0), (1, 1)]).area == 0.5
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('setup: ok,', sys.version.split('\n')[0])
