"""Generated simple polygons (star-shaped, staircase, spiral, far from the
origin, rotated starts, both orientations, open and closed rings), segment pairs
(integer grids that share end points, T-junctions, near misses), sight lines
past random walls, and geometries of every type with holes and nesting; the
oracle computes with exact rational numbers. Non-trivial: distinct input with a
decided (not borderline) answer."""
import math
from fractions import Fraction

import numpy as np
from shapely.geometry import GeometryCollection, LinearRing, LineString, \
    MultiLineString, MultiPoint, MultiPolygon, Point, Polygon

from crowddynamics.core.geom2D import line_intersect, polygon_area
from crowddynamics.core.geometry import geom_to_array, \
    geom_to_linear_obstacles, geom_to_linesegment, union
from crowddynamics.core.sensory_region import is_obstacle_between_points
from crowddynamics.core.structures import obstacle_type_linear
from geoms import anygeom, coord, multi, polygon, star
from harness import section

RULE = __doc__


def frac(p):
    return (Fraction(float(p[0])), Fraction(float(p[1])))


def exact_area(ring):
    q = [frac(p) for p in ring]
    s = Fraction(0)
    for i in range(len(q)):
        (x0, y0), (x1, y1) = q[i], q[(i + 1) % len(q)]
        s += x0 * y1 - x1 * y0
    return abs(s) / 2


def simple_ring(c):
    r = c.rng
    kind = r.randrange(4)
    if kind == 0:
        ring = star(c, (coord(c), coord(c)), 10 ** r.uniform(-2, 3),
                    n=r.choice([3, 4, 7, 20]))
    elif kind == 1:      # staircase (concave, axis parallel)
        n = r.choice([1, 2, 5])
        xs = [0.0]
        ys = [0.0]
        for _ in range(n):
            xs.append(xs[-1] + r.uniform(.1, 3))
            ys.append(ys[-1] + r.uniform(.1, 3))
        ring = [(xs[0], ys[0])]
        for k in range(n):
            ring.append((xs[k + 1], ys[k]))
            ring.append((xs[k + 1], ys[k + 1]))
        ring.append((xs[0], ys[-1]))
    elif kind == 2:      # spiral corridor
        n = r.choice([3, 6, 10])
        out, inn = [], []
        for k in range(n):
            a = k * .7
            out.append(((2 + k) * math.cos(a), (2 + k) * math.sin(a)))
            inn.append(((1.7 + k) * math.cos(a), (1.7 + k) * math.sin(a)))
        ring = out + inn[::-1]
    else:                # integer rectangle or triangle
        a, b = r.randint(1, 9), r.randint(1, 9)
        ring = [(0.0, 0.0), (a, 0.0), (a, b), (0.0, b)]
        if r.random() < .5:
            ring = ring[:3]
    if r.random() < .5:
        t = (r.uniform(-1, 1) * 10 ** r.uniform(0, 3),
             r.uniform(-1, 1) * 10 ** r.uniform(0, 3))
        ring = [(x + t[0], y + t[1]) for x, y in ring]
    return [(float(x), float(y)) for x, y in ring]


@section('area', 500, 40000)
def area(c):
    r = c.rng
    ring = simple_ring(c)
    want = float(exact_area(ring))
    size = max(abs(v) for p in ring for v in p)
    tol = 1e-14 * size * size * len(ring) + 1e-300
    forms = []
    for k in range(3):
        s = r.randrange(len(ring))
        q = ring[s:] + ring[:s]
        if r.random() < .5:
            q = q[::-1]
        if r.random() < .5:
            q = q + [q[0]]
        forms.append(q)
    forms.append(ring)
    for q in forms:
        a = np.array(q)
        if r.random() < .3:
            big = np.zeros((len(q), 3))
            big[:, 1:] = a
            a = big[:, 1:]
        keep = a.copy()
        got = c.call('polygon_area', polygon_area, a)
        c.close(got, want, 'area', rtol=1e-12, atol=tol, detail=q)
        c.check(np.array_equal(a, keep), 'argument-changed')
    p = Polygon(ring)
    c.close(polygon_area(np.asarray(p.exterior)), want, 'area-of-ring',
            rtol=1e-12, atol=tol)
    for n in (0, 1, 2):
        c.close(polygon_area(np.array(ring[:n]).reshape(n, 2)), 0.0,
                'degenerate-area')
    c.nontrivial(ring)
    c.sample((len(ring), want))


def share_point(x0, x1, y0, y1):
    """(answer, margin) for two segments, None when one runs along the other.

    Parallel segments apart from each other have the margin 0: their answer
    can be asked for with numbers that are not rounded.
    """
    x0, x1, y0, y1 = map(frac, (x0, x1, y0, y1))
    u = (x1[0] - x0[0], x1[1] - x0[1])
    v = (y1[0] - y0[0], y1[1] - y0[1])
    b = (y0[0] - x0[0], y0[1] - x0[1])
    d = u[0] * v[1] - u[1] * v[0]
    uu = u[0] ** 2 + u[1] ** 2
    vv = v[0] ** 2 + v[1] ** 2
    if d == 0:
        if uu == 0:
            (x0, x1, y0, y1), u, b = (y0, y1, x0, x1), v, (-b[0], -b[1])
        if b[0] * u[1] - b[1] * u[0] != 0:
            return False, 0.0
        apart = (max(x0, x1) < min(y0, y1)) or (max(y0, y1) < min(x0, x1))
        return (False, 0.0) if apart else (None, 0.0)
    t = (b[0] * v[1] - b[1] * v[0]) / d
    s = (b[0] * u[1] - b[1] * u[0]) / d
    margin = min(abs(t), abs(t - 1), abs(s), abs(s - 1))
    sine = abs(float(d)) / math.sqrt(float(uu) * float(vv))
    return (0 <= t <= 1 and 0 <= s <= 1), float(margin) * min(1.0, sine)


def segment_pair(r):
    if r.random() < .5:
        m = r.choice([2, 5])
        q = [(float(r.randint(-m, m)), float(r.randint(-m, m)))
             for _ in range(4)]
        if r.random() < .25:        # parallel to the first one
            k = r.choice([-2, -1, 1, 2])
            q[3] = tuple(q[2][a] + k * (q[1][a] - q[0][a]) for a in (0, 1))
        exact = True
    else:
        q = [(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(4)]
        if r.random() < .4:
            # y0 close to a point of the first segment
            t = r.uniform(-.1, 1.1)
            q[2] = tuple(q[0][k] + t * (q[1][k] - q[0][k]) for k in (0, 1))
        exact = False
    return q, exact


@section('crossing', 800, 60000)
def crossing(c):
    r = c.rng
    q, exact = segment_pair(r)
    want, margin = share_point(*q)
    if want is None or (not exact and margin < 1e-9):
        c.skip()
    a = [np.array(p) for p in q]
    got = bool(c.call('line_intersect', line_intersect, *a))
    c.equal(got, want, 'crossing', q)
    for order in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)):
        c.equal(bool(line_intersect(*[a[k] for k in order])), want,
                'crossing-symmetry', q, order)
    # exact similarity: mirrored and scaled by a power of two
    k = 2.0 ** r.randint(-20, 20)
    m = [np.array((k * p[1], k * p[0])) for p in q]
    c.equal(bool(line_intersect(*m)), want, 'crossing-mirrored', q, k)
    c.equal([tuple(p) for p in a], q, 'argument-changed')
    c.state('decision', want, exact, margin == 0)
    c.nontrivial(q)
    c.sample((q, want))


@section('line-of-sight', 300, 20000)
def line_of_sight(c):
    r = c.rng
    n = r.choice([0, 1, 2, 5, 12])
    grid = r.random() < .4

    def p():
        if grid:
            return (float(r.randint(-4, 4)), float(r.randint(-4, 4)))
        return (r.uniform(-4, 4), r.uniform(-4, 4))
    a, b = p(), p()
    if a == b:
        c.skip()
    walls = np.zeros(n, dtype=obstacle_type_linear)
    blocked = False
    used = []
    for k in range(n):
        while True:
            s, e = p(), p()
            want, margin = share_point(a, b, s, e)
            if want is not None and (grid or margin > 1e-9):
                break
        if r.random() < .8 and want:
            s, e = e, e   # shortened below, mostly free lines of sight
            e = (s[0] + .01, s[1] + .013)
            want, margin = share_point(a, b, s, e)
            if want is None or margin < 1e-9:
                c.skip()
        walls[k] = (s, e)
        used.append((s, e, want))
        blocked = blocked or want
    got = bool(c.call('is_obstacle_between_points',
                      is_obstacle_between_points, np.array(a), np.array(b),
                      walls))
    c.equal(got, blocked, 'line-of-sight', a, b, used)
    c.equal(bool(is_obstacle_between_points(np.array(b), np.array(a), walls)),
            blocked, 'line-of-sight-back', a, b)
    perm = list(range(n))
    r.shuffle(perm)
    c.equal(bool(is_obstacle_between_points(np.array(a), np.array(b),
                                            walls[perm])), blocked,
            'line-of-sight-order')
    c.state('walls', n, blocked)
    c.nontrivial(a, b, used)
    c.sample((a, b, used[:3], blocked))


def expected_edges(g):
    def edges(coords):
        q = [tuple(map(float, p)) for p in coords]
        return list(zip(q[:-1], q[1:]))
    if isinstance(g, Point):
        return []
    if isinstance(g, (LineString, LinearRing)):
        return edges(g.coords)
    if isinstance(g, Polygon):
        out = edges(g.exterior.coords)
        for h in g.interiors:
            out += edges(h.coords)
        return out
    out = []
    for x in g.geoms:
        out += expected_edges(x)
    return out


def geometry(c):
    r = c.rng
    k = r.randrange(9)
    if k in (7, 8):          # the same part twice, and once backwards
        p = LineString([(coord(c), coord(c)) for _ in range(2)])
        if p.length == 0:
            p = LineString([(0, 0), (1, 2)])
        q = LineString(list(p.coords)[::-1])
        s = polygon(c)
        return r.choice([
            MultiLineString([p, q, p]), GeometryCollection([p, s, p]),
            GeometryCollection([s, LinearRing(s.exterior.coords), q, s]),
            LineString(list(p.coords) * 2)])
    if k == 0:
        return polygon(c, holes=True)
    if k == 1:
        return Polygon(star(c)) | LineString([(9, 9), (10, 11), (12, 9)])
    if k == 2:
        n = r.choice([2, 3])
        return MultiPolygon([
            ([(x, 0), (x + 9, 0), (x + 9, 9), (x, 9)],
             [[(x + 2, 2), (x + 5, 2), (x + 5, 4)]]) for x in
            [20.0 * i for i in range(n)]])
    if k == 3:
        return GeometryCollection([polygon(c), multi(c), polygon(c, holes=True)])
    if k == 4:
        return LinearRing(star(c))
    return anygeom(c)


@section('segments', 400, 20000)
def segments(c):
    r = c.rng
    g = geometry(c)
    want = sorted(expected_edges(g))
    got = c.call('geom_to_linesegment', lambda: list(geom_to_linesegment(g)))
    got = [tuple(tuple(map(float, p)) for p in s) for s in got]
    c.equal(sorted(got), want, 'linesegments', g.geom_type)
    arr = c.call('geom_to_linear_obstacles', geom_to_linear_obstacles, g)
    c.check(arr.dtype == obstacle_type_linear, 'obstacle-dtype', arr.dtype)
    c.equal(arr.shape, (len(want),), 'obstacle-count', g.geom_type)
    c.equal(sorted((tuple(map(float, o['p0'])), tuple(map(float, o['p1'])))
                   for o in arr), want, 'obstacles', g.geom_type)
    empty = c.call('geom_to_linear_obstacles', geom_to_linear_obstacles, None)
    c.check(empty.shape == (0,) and empty.dtype == obstacle_type_linear,
            'no-obstacles', empty.shape, empty.dtype)
    for bad in (5, 'geom', None, [(0, 0), (1, 1)]):
        c.raises(TypeError, 'not-a-geometry',
                 lambda: list(geom_to_linesegment(bad)))
    c.count('edges', len(want))
    c.state('type', g.geom_type, len(want) > 0)
    if want:
        c.nontrivial(want)
    c.sample((g.geom_type, len(want)))


def flat_parts(g):
    """Groups of (flag, coordinates) in order of the parts."""
    xy = lambda cs: [tuple(map(float, p)) for p in cs]
    if isinstance(g, Point):
        return [[(0.0, xy(g.coords))]]
    if isinstance(g, (LineString, LinearRing)):
        return [[(1.0, xy(g.coords))]]
    if isinstance(g, Polygon):
        return [sorted([(2.0, xy(h.coords)) for h in g.interiors] +
                       [(3.0, xy(g.exterior.coords))])]
    out = []
    for x in g.geoms:
        out += flat_parts(x)
    return out


@section('flat-array', 300, 15000)
def flat_array(c):
    g = geometry(c)
    want = flat_parts(g)
    a = c.call('geom_to_array', geom_to_array, g)
    c.equal((a.ndim, a.shape[-1]), (2, 2), 'flat-shape', a.shape)
    parts = []
    for row in a:
        if math.isnan(row[0]):
            parts.append((float(row[1]), []))
        else:
            c.check(parts, 'flat-no-flag')
            parts[-1][1].append((float(row[0]), float(row[1])))
    k = 0
    for group in want:
        c.equal(sorted(parts[k:k + len(group)]), group, 'flat-parts',
                g.geom_type)
        k += len(group)
    c.equal(len(parts), k, 'flat-extra-parts', g.geom_type)
    c.raises(TypeError, 'not-a-geometry', geom_to_array, 5)
    c.count('parts', k)
    c.nontrivial(want)
    c.sample((g.geom_type, k))
