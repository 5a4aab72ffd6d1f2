from ._delaunay import Delaunay, Voronoi, QhullError, ConvexHull
