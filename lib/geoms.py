"""Random geometry (on the shapely interface) with known structure."""
import math

import numpy as np
from shapely.geometry import (GeometryCollection, LineString, MultiLineString,
                              MultiPoint, MultiPolygon, Point, Polygon,
                              mapping)


def coord(c, span=50.0):
    r = c.rng
    k = r.randrange(3)
    if k == 0:
        return float(r.randint(-int(span), int(span)))
    if k == 1:
        return round(r.uniform(-span, span), 2)
    return r.uniform(-span, span)


def pt(c, span=50.0):
    return (coord(c, span), coord(c, span))


def rect(c, span=50.0, origin=None):
    x, y = origin or pt(c, span)
    w, h = c.rng.uniform(1, 9), c.rng.uniform(1, 9)
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


def star(c, centre=(0.0, 0.0), radius=5.0, n=None, lo=.4):
    """Simple (star-shaped) ring in counter clockwise order."""
    n = n or c.rng.randint(3, 9)
    a0 = c.rng.uniform(0, 2 * math.pi)
    out = []
    for k in range(n):
        a = a0 + 2 * math.pi * (k + c.rng.uniform(0, .7)) / n
        q = radius * c.rng.uniform(lo, 1)
        out.append((centre[0] + q * math.cos(a), centre[1] + q * math.sin(a)))
    return out


def polygon(c, span=50.0, holes=None):
    r = c.rng
    centre = pt(c, span)
    if holes is None:
        holes = r.random() < .3
    if holes:
        s = r.uniform(4, 10)
        x, y = centre
        shell = [(x - s, y - s), (x + s, y - s), (x + s, y + s), (x - s, y + s)]
        hs = [star(c, (x - s / 2, y), s / 3)]
        if r.random() < .4:
            hs.append(star(c, (x + s / 2, y), s / 3))
        if r.random() < .5:
            shell.reverse()
        return Polygon(shell, hs)
    ring = star(c, centre, r.uniform(1, 10)) if r.random() < .6 \
        else rect(c, span, centre)
    if r.random() < .5:
        ring.reverse()
    return Polygon(ring)


def linestring(c, span=50.0, n=None):
    n = n or c.rng.choice([2, 2, 3, 5, 8])
    out = [pt(c, span)]
    while len(out) < n:
        q = pt(c, span)
        if q != out[-1]:
            out.append(q)
    return LineString(out)


def single(c, span=50.0):
    return c.rng.choice([lambda: Point(*pt(c, span)),
                         lambda: linestring(c, span),
                         lambda: polygon(c, span)])()


def disjoint_polygons(c, n):
    out = []
    for k in range(n):
        out.append(Polygon(star(c, (k * 25.0 + coord(c, 1), coord(c, 20)), 8.0)))
    return out


def multi(c, span=50.0):
    r = c.rng
    k = r.randrange(4)
    n = r.randint(1, 4)
    if k == 0:
        return MultiPoint([pt(c, span) for _ in range(n)])
    if k == 1:
        return MultiLineString([list(linestring(c, span).coords)
                                for _ in range(n)])
    if k == 2:
        return MultiPolygon([(list(p.exterior.coords), [])
                             for p in disjoint_polygons(c, n)])
    return GeometryCollection([single(c, span) for _ in range(n)])


def anygeom(c, span=50.0):
    return single(c, span) if c.rng.random() < .6 else multi(c, span)


def plain(geom):
    """Type and exact coordinates as nested lists."""
    def conv(x):
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        if isinstance(x, (np.floating, np.integer)):
            return float(x)
        return float(x) if isinstance(x, (int, float)) else x
    return conv(mapping(geom))
