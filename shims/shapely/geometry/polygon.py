from .._geom import Polygon, LinearRing


def orient(polygon, sign=1.0):
    def turned(ring, sign):
        pts = list(ring.coords)
        return pts if ring.is_ccw == (sign >= 0) else pts[::-1]
    return Polygon(turned(polygon.exterior, sign),
                   [turned(r, -sign) for r in polygon.interiors])
