from ._delaunay import Delaunay, Voronoi, QhullError, ConvexHull, cKDTree, \
    KDTree
from . import qhull, distance


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise NotImplementedError('ShimMissing: scipy.spatial.' + name)
