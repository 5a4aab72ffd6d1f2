from ._geom import ShimMissing, Polygon, GeometryCollection


def unary_union(geoms):
    geoms = list(geoms) if not hasattr(geoms, 'geoms') else list(geoms.geoms)
    if not geoms:
        return GeometryCollection([])
    out = geoms[0]
    for g in geoms[1:]:
        out = out | g
    return out


cascaded_union = unary_union


def linemerge(*a):
    raise ShimMissing('linemerge')


def triangulate(*a, **k):
    raise ShimMissing('triangulate')


def nearest_points(*a):
    raise ShimMissing('nearest_points')


def polygonize(*a):
    raise ShimMissing('polygonize')


def split(*a):
    raise ShimMissing('split')


def transform(*a):
    raise ShimMissing('transform')
