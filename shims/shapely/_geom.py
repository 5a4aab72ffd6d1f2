"""Pure Python planar geometries with the interface of Shapely 1.x."""
import math
from collections.abc import Iterable

import numpy as np

from . import _overlay
from ._overlay import OverlayError


class ShimMissing(NotImplementedError):
    """A Shapely feature the stand-in does not provide."""


def _pt(p):
    if isinstance(p, Point):
        return (p.x, p.y)
    p = tuple(float(v) for v in p)
    if len(p) < 2:
        raise ValueError('coordinates need two numbers')
    return p[:2]


class CoordinateSequence(object):
    def __init__(self, pts):
        self._pts = list(pts)

    def __len__(self):
        return len(self._pts)

    def __iter__(self):
        return iter(self._pts)

    def __getitem__(self, item):
        if isinstance(item, slice):
            return list(self._pts[item])
        return self._pts[item]

    def __array__(self, dtype=None):
        return np.array(self._pts, dtype=dtype or np.float64).reshape(-1, 2)

    @property
    def xy(self):
        return _xy(self._pts)

    def __eq__(self, other):
        return list(self) == list(other)


def _xy(pts):
    from array import array
    return (array('d', [p[0] for p in pts]), array('d', [p[1] for p in pts]))


class BaseGeometry(object):
    """Also constructible on its own: the empty geometry collection."""

    # --- structure ------------------------------------------------------
    _type = 'GeometryCollection'

    def _rings(self):
        """Rings, counter clockwise around the area they add."""
        return []

    def _lines(self):
        return []

    def _points(self):
        return []

    def _parts(self):
        return []

    @property
    def type(self):
        return self._type

    @property
    def geom_type(self):
        return self._type

    def geometryType(self):
        return self._type

    @property
    def is_empty(self):
        return not (self._rings() or self._lines() or self._points())

    def __bool__(self):
        return not self.is_empty

    __nonzero__ = __bool__

    @property
    def has_z(self):
        return False

    def _all_points(self):
        out = list(self._points())
        for l in self._lines():
            out.extend(l)
        for r in self._rings():
            out.extend(r)
        return out

    @property
    def bounds(self):
        pts = self._all_points()
        if not pts:
            return ()
        return (min(p[0] for p in pts), min(p[1] for p in pts),
                max(p[0] for p in pts), max(p[1] for p in pts))

    @property
    def area(self):
        return abs(sum(_signed_area(r) for r in self._rings()))

    @property
    def length(self):
        tot = 0.0
        for l in self._lines():
            for a, b in zip(l, l[1:]):
                tot += math.hypot(a[0] - b[0], a[1] - b[1])
        for r in self._rings():
            for a, b in zip(r, r[1:] + r[:1]):
                tot += math.hypot(a[0] - b[0], a[1] - b[1])
        return tot

    @property
    def centroid(self):
        rings = self._rings()
        if rings:
            A = cx = cy = 0.0
            ox, oy = rings[0][0]
            for r in rings:
                for (x0, y0), (x1, y1) in zip(r, r[1:] + r[:1]):
                    x0, y0, x1, y1 = x0 - ox, y0 - oy, x1 - ox, y1 - oy
                    c = x0 * y1 - x1 * y0
                    A += c
                    cx += (x0 + x1) * c
                    cy += (y0 + y1) * c
            if A:
                return Point(cx / (3 * A) + ox, cy / (3 * A) + oy)
        lines = self._lines()
        if lines:
            L = cx = cy = 0.0
            for l in lines:
                for a, b in zip(l, l[1:]):
                    d = math.hypot(a[0] - b[0], a[1] - b[1])
                    L += d
                    cx += d * (a[0] + b[0]) / 2
                    cy += d * (a[1] + b[1]) / 2
            if L:
                return Point(cx / L, cy / L)
        pts = self._all_points()
        if not pts:
            return GeometryCollection([])
        return Point(sum(p[0] for p in pts) / len(pts),
                     sum(p[1] for p in pts) / len(pts))

    @property
    def convex_hull(self):
        pts = sorted(set(self._all_points()))
        if not pts:
            return GeometryCollection([])
        hull = _hull(pts)
        if len(hull) == 1:
            return Point(hull[0])
        if len(hull) == 2:
            return LineString(hull)
        return Polygon(hull[::-1])

    @property
    def envelope(self):
        x0, y0, x1, y1 = self.bounds
        return Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])

    minimum_rotated_rectangle = property(
        lambda self: _missing('minimum_rotated_rectangle'))

    @property
    def is_valid(self):
        return True

    @property
    def is_simple(self):
        return True

    @property
    def is_closed(self):
        return False

    @property
    def is_ring(self):
        return False

    @property
    def boundary(self):
        raise ShimMissing('boundary of ' + self._type)

    # --- overlay --------------------------------------------------------
    def _combine(self, other, op):
        if not isinstance(other, BaseGeometry):
            raise TypeError('geometry expected')
        ra, rb = self._rings(), other._rings()
        la, lb = self._lines(), other._lines()
        pa, pb = self._points(), other._points()
        polys = []
        if ra or rb:
            if op == 'union' and not rb:
                polys = _polys_of(self)
            elif op == 'union' and not ra:
                polys = _polys_of(other)
            elif op == 'difference' and not rb:
                polys = _polys_of(self)
            elif (op in ('intersection',) and not (ra and rb)) or \
                    (op == 'difference' and not ra):
                polys = []
            else:
                polys = _overlay.polygon_overlay(
                    [ra, rb], {
                        'union': lambda w: (w[0] != 0) | (w[1] != 0),
                        'intersection': lambda w: (w[0] != 0) & (w[1] != 0),
                        'difference': lambda w: (w[0] != 0) & (w[1] == 0),
                        'symmetric_difference':
                            lambda w: (w[0] != 0) ^ (w[1] != 0),
                    }[op])
                polys = [Polygon(s, h) for s, h in polys]
        lines = []
        if la or lb:
            if op == 'union':
                keep = lambda a, b, ina, inb, ba, bb: \
                    (a or b) and not (ina or inb or ba or bb)
            elif op == 'intersection':
                keep = lambda a, b, ina, inb, ba, bb: \
                    (a and (b or inb or bb)) or (b and (a or ina or ba))
            elif op == 'difference':
                keep = lambda a, b, ina, inb, ba, bb: \
                    a and not (b or inb or bb)
            else:
                keep = lambda a, b, ina, inb, ba, bb: \
                    (a and not (b or inb or bb)) or \
                    (b and not (a or ina or ba))
            lines = [LineString(l) for l in
                     _overlay.line_overlay(la, lb, ra, rb, keep)]
        points = []
        if pa or pb:
            if op == 'union':
                cand = pa + [p for p in pb if p not in pa]
                rest = [g for g in (_nonpoint(self), _nonpoint(other))
                        if g is not None]
                points = [p for p in cand
                          if all(_pt_dist(p, g) > 0 for g in rest)]
            elif op == 'intersection':
                points = [p for p in pa if _pt_dist(p, other) == 0] + \
                         [p for p in pb if p not in pa and
                          _pt_dist(p, self) == 0]
            elif op == 'difference':
                points = [p for p in pa if _pt_dist(p, other) > 0]
            else:
                points = [p for p in pa if _pt_dist(p, other) > 0] + \
                         [p for p in pb if _pt_dist(p, self) > 0]
            points = [Point(p) for p in dict.fromkeys(points)]
        return _collect(points, lines, polys)

    def union(self, other):
        return self._combine(other, 'union')

    def intersection(self, other):
        return self._combine(other, 'intersection')

    def difference(self, other):
        return self._combine(other, 'difference')

    def symmetric_difference(self, other):
        return self._combine(other, 'symmetric_difference')

    def __or__(self, other):
        return self.union(other)

    def __and__(self, other):
        return self.intersection(other)

    def __sub__(self, other):
        return self.difference(other)

    def __xor__(self, other):
        return self.symmetric_difference(other)

    # --- measures and predicates ---------------------------------------
    def distance(self, other):
        if self.is_empty or other.is_empty:
            return float('inf') if False else 0.0
        best = float('inf')
        for p in self._points():
            best = min(best, _pt_dist(p, other))
        for p in other._points():
            best = min(best, _pt_dist(p, self))
        if best == 0:
            return 0.0
        sa, sb = _segments(self), _segments(other)
        if len(sa) and len(sb):
            if other._rings() and any(_in_rings(p, other._rings())
                                      for p in self._first_points()):
                return 0.0
            if self._rings() and any(_in_rings(p, self._rings())
                                     for p in other._first_points()):
                return 0.0
            for s in sa:
                best = min(best, min(_seg_seg(s, t) for t in sb))
                if best == 0:
                    break
        return best

    def _first_points(self):
        return list(self._points()) + [l[0] for l in self._lines()] + \
            [r[0] for r in self._rings()]

    def intersects(self, other):
        if self.is_empty or other.is_empty:
            return False
        return self.distance(other) <= 1e-12

    def disjoint(self, other):
        return not self.intersects(other)

    def contains(self, other):
        if self.is_empty or other.is_empty:
            return False
        if isinstance(other, Point):
            p = (other.x, other.y)
            if self._rings():
                return _in_rings(p, self._rings()) and \
                    _boundary_dist(p, self._rings()) > 0
            if isinstance(self, Point):
                return p == (self.x, self.y)
            return _pt_dist(p, self) == 0
        rest = other.difference(self)
        if other._rings():
            return rest.area <= 1e-9 * max(1.0, other.area)
        return rest.length <= 1e-9 * max(1.0, other.length)

    def covers(self, other):
        if isinstance(other, Point):
            return not self.is_empty and _pt_dist((other.x, other.y), self) == 0
        return self.contains(other)

    def within(self, other):
        return other.contains(self)

    def touches(self, other):
        raise ShimMissing('touches')

    def crosses(self, other):
        raise ShimMissing('crosses')

    def overlaps(self, other):
        raise ShimMissing('overlaps')

    def equals(self, other):
        if self.is_empty or other.is_empty:
            return self.is_empty and other.is_empty
        d = self.symmetric_difference(other)
        return d.is_empty or (d.area < 1e-9 and d.length < 1e-5 and
                              not d._points())

    def almost_equals(self, other, decimal=6):
        return self.equals_exact(other, 0.5 * 10 ** -decimal)

    def equals_exact(self, other, tolerance):
        if self._type != other._type:
            return False
        a, b = self._all_points(), other._all_points()
        return len(a) == len(b) and all(
            abs(p[0] - q[0]) <= tolerance and abs(p[1] - q[1]) <= tolerance
            for p, q in zip(a, b))

    def representative_point(self):
        for r in self._rings()[:1]:
            c = self.centroid
            if self.contains(c):
                return c
            from ._tri import interior_point
            return Point(interior_point(self))
        return Point(self._all_points()[0])

    def buffer(self, distance, resolution=16, quadsegs=None, cap_style=1,
               join_style=1, mitre_limit=5.0, single_sided=False):
        if cap_style != 1 or join_style != 1 or single_sided:
            raise ShimMissing('buffer styles other than round')
        if quadsegs is not None:
            resolution = quadsegs
        resolution = max(1, int(resolution))
        d = float(distance)
        if math.isnan(d):
            raise ValueError('buffer distance is nan')
        if d <= 0:
            rings = self._rings()
            if not rings:
                return Polygon()
            if d == 0:
                polys = _overlay.polygon_overlay(
                    [rings], lambda w: w[0] != 0)
            else:
                pieces = []
                for r in rings:
                    for a, b in zip(r, r[1:] + r[:1]):
                        if a != b:
                            pieces.append(_capsule(a, b, -d, resolution))
                polys = _overlay.polygon_overlay(
                    [rings, pieces], lambda w: (w[0] != 0) & (w[1] == 0))
            return _collect([], [], [Polygon(s, h) for s, h in polys]) \
                if polys else Polygon()
        pieces = list(self._rings())
        for r in self._rings():
            for a, b in zip(r, r[1:] + r[:1]):
                if a != b:
                    pieces.append(_capsule(a, b, d, resolution))
        for l in self._lines():
            some = False
            for a, b in zip(l, l[1:]):
                if a != b:
                    some = True
                    pieces.append(_capsule(a, b, d, resolution))
            if not some:
                pieces.append(_disc(l[0], d, resolution))
        for p in self._points():
            pieces.append(_disc(p, d, resolution))
        if not pieces:
            return Polygon()
        if len(pieces) == 1:
            return Polygon(pieces[0])
        # Unite in small groups: boundaries of groups are much shorter than
        # all the pieces together
        groups = [[r] for r in pieces] if not self._rings() else \
            [list(self._rings())] + [[r] for r in
                                     pieces[len(self._rings()):]]
        groups.sort(key=lambda g: (min(p[0] for p in g[0]),
                                   min(p[1] for p in g[0])))
        while len(groups) > 1:
            merged = []
            for i in range(0, len(groups), 4):
                chunk = groups[i:i + 4]
                if len(chunk) == 1:
                    merged.append(chunk[0])
                    continue
                rings = [r for g in chunk for r in g]
                polys = _overlay.polygon_overlay([rings],
                                                 lambda w: w[0] > 0)
                out = []
                for s, hs in polys:
                    out.append(_ccw(s))
                    out.extend(_ccw(h)[::-1] for h in hs)
                merged.append(out)
            groups = merged
        polys = _overlay.polygon_overlay([groups[0]], lambda w: w[0] > 0)
        return _collect([], [], [Polygon(s, h) for s, h in polys])

    def simplify(self, *a, **k):
        raise ShimMissing('simplify')

    def relate(self, other):
        raise ShimMissing('relate')

    # --- conversions ----------------------------------------------------
    @property
    def __geo_interface__(self):
        return {'type': 'GeometryCollection',
                'geometries': [g.__geo_interface__ for g in self._parts()]}

    @property
    def wkt(self):
        return self.to_wkt()

    def to_wkt(self):
        return '{} {!r}'.format(self._type.upper(), self.__geo_interface__)

    @property
    def wkb(self):
        """Bytes that are equal if and only if the geometries are; not in
        the format of the real library."""
        return repr((self._type, self.__geo_interface__)).encode('ascii')

    @property
    def wkb_hex(self):
        return self.wkb.hex().upper()

    def __repr__(self):
        return '<{} {}>'.format(self.__class__.__name__, self._all_points())

    def __str__(self):
        return self.wkt

    def _key(self):
        return (self._type, tuple(self._points()),
                tuple(map(tuple, self._lines())),
                tuple(map(tuple, self._rings())))

    def __eq__(self, other):
        return type(other) == type(self) and self._key() == other._key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._key())

    def __getstate__(self):
        return self.__dict__

    def __setstate__(self, d):
        self.__dict__.update(d)


def _missing(name):
    raise ShimMissing(name)


class Point(BaseGeometry):
    _type = 'Point'

    def __init__(self, *args):
        if not args:
            self._p = None
        elif len(args) == 1:
            if isinstance(args[0], Point):
                self._p = args[0]._p
            else:
                a = args[0]
                if isinstance(a, np.ndarray) and a.ndim == 2:
                    a = a[0]
                a = list(a)
                if len(a) == 1 and isinstance(a[0], Iterable):
                    a = a[0]
                self._p = _pt(a)
        else:
            self._p = _pt(args)

    def _points(self):
        return [] if self._p is None else [self._p]

    def _parts(self):
        return [self]

    @property
    def x(self):
        return self._p[0]

    @property
    def y(self):
        return self._p[1]

    @property
    def coords(self):
        return CoordinateSequence(self._points())

    @property
    def xy(self):
        return _xy(self._points())

    def __array__(self, dtype=None):
        return np.array(self._p, dtype=dtype or np.float64)

    @property
    def bounds(self):
        return () if self._p is None else self._p + self._p

    @property
    def __geo_interface__(self):
        return {'type': 'Point', 'coordinates': self._p}

    def to_wkt(self):
        return 'POINT ({:.16g} {:.16g})'.format(*self._p)


class LineString(BaseGeometry):
    _type = 'LineString'

    def __init__(self, coordinates=None):
        if coordinates is None:
            self._c = []
        else:
            if isinstance(coordinates, LineString):
                coordinates = coordinates.coords
            self._c = [_pt(p) for p in coordinates]
            if len(self._c) == 1:
                raise ValueError(
                    'LineStrings must have at least 2 coordinate tuples')

    def _lines(self):
        return [list(self._c)] if self._c else []

    def _parts(self):
        return [self]

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    @property
    def xy(self):
        return _xy(self._c)

    def __array__(self, dtype=None):
        return np.array(self._c, dtype=dtype or np.float64).reshape(-1, 2)

    @property
    def is_valid(self):
        return all(math.isfinite(v) for p in self._c for v in p) and \
            len(set(self._c)) != 1

    @property
    def is_closed(self):
        return bool(self._c) and self._c[0] == self._c[-1]

    @property
    def is_simple(self):
        segs = list(zip(self._c, self._c[1:]))
        for i in range(len(segs)):
            for j in range(i + 2, len(segs)):
                if i == 0 and j == len(segs) - 1 and self.is_closed:
                    continue
                if _seg_seg(segs[i] and (*segs[i][0], *segs[i][1]),
                            (*segs[j][0], *segs[j][1])) == 0:
                    return False
        return True

    @property
    def is_ring(self):
        return self.is_closed and self.is_simple

    @property
    def boundary(self):
        if self.is_closed:
            return MultiPoint([])
        return MultiPoint([self._c[0], self._c[-1]])

    def interpolate(self, distance, normalized=False):
        d = distance * self.length if normalized else distance
        if d < 0:
            d += self.length
        for a, b in zip(self._c, self._c[1:]):
            l = math.hypot(a[0] - b[0], a[1] - b[1])
            if d <= l and l > 0:
                t = d / l
                return Point(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            d -= l
        return Point(self._c[-1])

    def project(self, other, normalized=False):
        p = (other.x, other.y)
        best, where, run = float('inf'), 0.0, 0.0
        for a, b in zip(self._c, self._c[1:]):
            l = math.hypot(a[0] - b[0], a[1] - b[1])
            t = 0.0 if l == 0 else max(0.0, min(1.0, (
                (p[0] - a[0]) * (b[0] - a[0]) +
                (p[1] - a[1]) * (b[1] - a[1])) / l ** 2))
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            d = math.hypot(p[0] - q[0], p[1] - q[1])
            if d < best:
                best, where = d, run + t * l
            run += l
        return where / run if normalized and run else where

    @property
    def __geo_interface__(self):
        return {'type': self._type, 'coordinates': tuple(self._c)}

    def to_wkt(self):
        return '{} ({})'.format(self._type.upper(), ', '.join(
            '{:.16g} {:.16g}'.format(*p) for p in self._c))


class LinearRing(LineString):
    _type = 'LinearRing'

    def __init__(self, coordinates=None):
        super().__init__(coordinates)
        if self._c:
            if len(self._c) < 3:
                raise ValueError(
                    'A LinearRing must have at least 3 coordinate tuples')
            if self._c[0] != self._c[-1]:
                self._c.append(self._c[0])

    @property
    def is_ccw(self):
        return _signed_area(self._c[:-1]) > 0

    @property
    def is_valid(self):
        return super().is_valid and self.is_simple


class Polygon(BaseGeometry):
    _type = 'Polygon'

    def __init__(self, shell=None, holes=None):
        self._shell = None
        self._holes = []
        if isinstance(shell, Polygon):
            self._shell, self._holes = shell._shell, list(shell._holes)
            return
        if shell is not None:
            if isinstance(shell, LineString):
                shell = shell.coords
            shell = [_pt(p) for p in shell]
            if not shell:
                return
            self._shell = LinearRing(shell)
            for h in holes or []:
                h = [_pt(p) for p in
                     (h.coords if isinstance(h, LineString) else h)]
                if h:
                    self._holes.append(LinearRing(h))

    def _rings(self):
        if self._shell is None:
            return []
        out = [_ccw(self._shell._c[:-1])]
        for h in self._holes:
            out.append(_ccw(h._c[:-1])[::-1])
        return out

    def _parts(self):
        return [self]

    @property
    def exterior(self):
        return self._shell if self._shell is not None else LinearRing()

    @property
    def interiors(self):
        return _InteriorRings(self._holes)

    @property
    def coords(self):
        raise NotImplementedError(
            'Component rings have coordinate sequences, but the polygon does '
            'not')

    @property
    def boundary(self):
        if not self._holes:
            return LineString(self.exterior.coords)
        return MultiLineString([self.exterior] + list(self._holes))

    @property
    def is_valid(self):
        if self._shell is None:
            return True
        rings = [self._shell] + list(self._holes)
        if not all(math.isfinite(v) for r in rings for p in r._c for v in p):
            return False
        for r in rings:
            c = [r._c[0]]
            for p in r._c[1:]:
                if p != c[-1]:
                    c.append(p)
            if len(c) < 4 or not LinearRing(c).is_simple or \
                    _signed_area(c[:-1]) == 0:
                return False
        for h in self._holes:
            q = (h._c[0][0] + h._c[1][0]) / 2, (h._c[0][1] + h._c[1][1]) / 2
            if not _overlay._inside_ring(q, self._shell._c[:-1]):
                return False
        for i in range(len(rings)):
            for j in range(i + 1, len(rings)):
                for a in zip(rings[i]._c, rings[i]._c[1:]):
                    for b in zip(rings[j]._c, rings[j]._c[1:]):
                        if _proper_cross(a, b):
                            return False
        return True

    @property
    def __geo_interface__(self):
        if self._shell is None:
            return {'type': 'Polygon', 'coordinates': ()}
        return {'type': 'Polygon', 'coordinates':
                (tuple(self._shell._c),) + tuple(tuple(h._c)
                                                 for h in self._holes)}

    def to_wkt(self):
        if self._shell is None:
            return 'POLYGON EMPTY'
        return 'POLYGON ({})'.format(', '.join(
            '(' + ', '.join('{:.16g} {:.16g}'.format(*p) for p in r._c) + ')'
            for r in [self._shell] + list(self._holes)))

    def _key(self):
        if self._shell is None:
            return ('Polygon',)
        return ('Polygon', tuple(self._shell._c)) + tuple(
            tuple(h._c) for h in self._holes)


class _InteriorRings(object):
    def __init__(self, rings):
        self._r = list(rings)

    def __len__(self):
        return len(self._r)

    def __iter__(self):
        return iter(self._r)

    def __getitem__(self, item):
        return self._r[item]


class BaseMultipartGeometry(BaseGeometry):
    _part = None

    def __init__(self, parts=None):
        if isinstance(parts, BaseMultipartGeometry):
            parts = list(parts)
        self._g = [p if isinstance(p, BaseGeometry) else self._make(p)
                   for p in (parts if parts is not None else [])]

    def _make(self, p):
        raise TypeError('geometry expected')

    def _parts(self):
        return list(self._g)

    def _points(self):
        return [p for g in self._g for p in g._points()]

    def _lines(self):
        return [p for g in self._g for p in g._lines()]

    def _rings(self):
        return [p for g in self._g for p in g._rings()]

    @property
    def geoms(self):
        return _GeomSequence(self._g)

    def __iter__(self):
        return iter(self._g)

    def __len__(self):
        return len(self._g)

    def __getitem__(self, item):
        return self._g[item]

    @property
    def is_valid(self):
        return all(g.is_valid for g in self._g)

    @property
    def coords(self):
        raise NotImplementedError(
            'Sub-geometries may have coordinate sequences, but collections do '
            'not')

    def _key(self):
        return (self._type,) + tuple(g._key() for g in self._g)

    @property
    def __geo_interface__(self):
        return {'type': self._type, 'coordinates': tuple(
            g.__geo_interface__['coordinates'] for g in self._g)}


class _GeomSequence(object):
    def __init__(self, g):
        self._g = list(g)

    def __iter__(self):
        return iter(self._g)

    def __len__(self):
        return len(self._g)

    def __getitem__(self, item):
        return self._g[item]


class MultiPoint(BaseMultipartGeometry):
    _type = 'MultiPoint'

    def _make(self, p):
        return Point(p)

    def __array__(self, dtype=None):
        return np.array(self._points(), dtype=dtype or np.float64)


class MultiLineString(BaseMultipartGeometry):
    _type = 'MultiLineString'

    def _make(self, p):
        return LineString(p)

    @property
    def boundary(self):
        raise ShimMissing('boundary of MultiLineString')


class MultiPolygon(BaseMultipartGeometry):
    _type = 'MultiPolygon'

    def _make(self, p):
        shell, holes = p[0], (p[1] if len(p) > 1 else [])
        return Polygon(shell, holes)

    @property
    def boundary(self):
        out = []
        for part in self:
            out.append(part.exterior)
            out.extend(part.interiors)
        return MultiLineString(out)


class GeometryCollection(BaseMultipartGeometry):
    _type = 'GeometryCollection'

    @property
    def __geo_interface__(self):
        return {'type': self._type,
                'geometries': [g.__geo_interface__ for g in self._g]}


# --- helpers -------------------------------------------------------------

def _signed_area(ring):
    ox, oy = ring[0]
    s = 0.0
    for (x0, y0), (x1, y1) in zip(ring, ring[1:] + ring[:1]):
        s += (x0 - ox) * (y1 - oy) - (x1 - ox) * (y0 - oy)
    return s / 2


def _ccw(ring):
    ring = list(ring)
    if len(ring) > 1 and ring[0] == ring[-1]:
        ring = ring[:-1]
    return ring if _signed_area(ring) >= 0 else ring[::-1]


def _hull(pts):
    if len(pts) <= 2:
        return pts
    def half(it):
        h = []
        for p in it:
            while len(h) >= 2 and _orient(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def _orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def _proper_cross(a, b):
    o1, o2 = _orient(a[0], a[1], b[0]), _orient(a[0], a[1], b[1])
    o3, o4 = _orient(b[0], b[1], a[0]), _orient(b[0], b[1], a[1])
    return ((o1 > 0 > o2) or (o1 < 0 < o2)) and \
        ((o3 > 0 > o4) or (o3 < 0 < o4))


def _pt_seg(p, s):
    x0, y0, x1, y1 = s
    dx, dy = x1 - x0, y1 - y0
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else ((p[0] - x0) * dx + (p[1] - y0) * dy) / l2
    t = max(0.0, min(1.0, t))
    return math.hypot(p[0] - x0 - t * dx, p[1] - y0 - t * dy)


def _seg_seg(s, t):
    a = ((s[0], s[1]), (s[2], s[3]))
    b = ((t[0], t[1]), (t[2], t[3]))
    if _proper_cross(a, b):
        return 0.0
    return min(_pt_seg(a[0], t), _pt_seg(a[1], t), _pt_seg(b[0], s),
               _pt_seg(b[1], s))


def _segments(g):
    out = []
    for l in g._lines():
        out.extend((a[0], a[1], b[0], b[1]) for a, b in zip(l, l[1:]))
    for r in g._rings():
        out.extend((a[0], a[1], b[0], b[1])
                   for a, b in zip(r, r[1:] + r[:1]))
    return out


def _in_rings(p, rings):
    """Inside by winding of properly oriented rings (or even-odd parity)."""
    n = 0
    for r in rings:
        if _overlay._inside_ring(p, r):
            n += 1 if _signed_area(r) > 0 else -1
    return n > 0


def _boundary_dist(p, rings):
    return min(_pt_seg(p, (a[0], a[1], b[0], b[1]))
               for r in rings for a, b in zip(r, r[1:] + r[:1]))


def _pt_dist(p, g):
    best = float('inf')
    for q in g._points():
        best = min(best, math.hypot(p[0] - q[0], p[1] - q[1]))
    for s in _segments(g):
        best = min(best, _pt_seg(p, s))
    if g._rings() and best > 0 and _in_rings(p, g._rings()):
        return 0.0
    return best


def _nonpoint(g):
    if g._lines() or g._rings():
        parts = [x for x in g._parts() if not isinstance(x, Point)]
        return GeometryCollection(parts)
    return None


def _polys_of(g):
    if isinstance(g, Polygon):
        return [g] if not g.is_empty else []
    out = []
    for p in g._parts():
        if p is not g:
            out.extend(_polys_of(p))
    return out


def _collect(points, lines, polys):
    kinds = [bool(points), bool(lines), bool(polys)]
    if sum(kinds) == 0:
        return GeometryCollection([])
    if sum(kinds) == 1:
        for group, multi in ((points, MultiPoint), (lines, MultiLineString),
                             (polys, MultiPolygon)):
            if group:
                return group[0] if len(group) == 1 else multi(group)
    return GeometryCollection(list(points) + list(lines) + list(polys))


def _disc(p, d, resolution):
    n = 4 * resolution
    return [(p[0] + d * math.cos(2 * math.pi * k / n),
             p[1] + d * math.sin(2 * math.pi * k / n)) for k in range(n)]


def _capsule(a, b, d, resolution):
    phi = math.atan2(b[1] - a[1], b[0] - a[0])
    out = []
    n = 2 * resolution
    for k in range(n + 1):
        t = phi - math.pi / 2 + math.pi * k / n
        out.append((b[0] + d * math.cos(t), b[1] + d * math.sin(t)))
    for k in range(n + 1):
        t = phi + math.pi / 2 + math.pi * k / n
        out.append((a[0] + d * math.cos(t), a[1] + d * math.sin(t)))
    return out


def mapping(ob):
    if ob is None:
        raise AttributeError("'NoneType' object has no attribute "
                             "'__geo_interface__'")
    return ob.__geo_interface__


def shape(context):
    if hasattr(context, '__geo_interface__'):
        ob = context.__geo_interface__
    else:
        ob = context
    t = ob.get('type').lower()
    if t == 'geometrycollection':
        return GeometryCollection([shape(g) for g in ob.get('geometries', [])])
    c = ob['coordinates']
    if t == 'point':
        return Point(c)
    if t == 'linestring':
        return LineString(c)
    if t == 'linearring':
        return LinearRing(c)
    if t == 'polygon':
        if not c:
            return Polygon()
        return Polygon(c[0], c[1:])
    if t == 'multipoint':
        return MultiPoint(c)
    if t == 'multilinestring':
        return MultiLineString(c)
    if t == 'multipolygon':
        return MultiPolygon([[p[0], p[1:]] for p in c])
    raise ValueError('Unknown geometry type: %s' % t)


def box(minx, miny, maxx, maxy, ccw=True):
    coords = [(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)]
    return Polygon(coords if ccw else coords[::-1])


asShape = shape
