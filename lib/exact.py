"""Independent plane geometry used as oracle (plain floats)."""
import math


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def closest_on_segment(p, a, b):
    """Point of the segment nearest to p."""
    d = sub(b, a)
    n = d[0] * d[0] + d[1] * d[1]
    if n == 0:
        return tuple(a)
    t = ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / n
    t = min(1.0, max(0.0, t))
    return (a[0] + t * d[0], a[1] + t * d[1])


def point_segment(p, a, b):
    return dist(p, closest_on_segment(p, a, b))


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def parts(rec, model):
    """(centre, radius) of the circles of an agent record."""
    t = lambda v: (float(v[0]), float(v[1]))
    if model == 'circular':
        return [(t(rec['position']), float(rec['radius']))]
    phi, r = float(rec['orientation']), float(rec['r_ts'])
    e = (math.sin(phi), -math.cos(phi))
    x = t(rec['position'])
    return [(x, float(rec['r_t'])),
            ((x[0] - r * e[0], x[1] - r * e[1]), float(rec['r_s'])),
            ((x[0] + r * e[0], x[1] + r * e[1]), float(rec['r_s']))]


def gap(parts0, parts1):
    return min(dist(x, y) - r - s for x, r in parts0 for y, s in parts1)


def wall_gap(parts0, a, b):
    return min(point_segment(x, a, b) - r for x, r in parts0)


def crossing_number(p, ring):
    """Strictly inside/outside by ray casting (points away from edges)."""
    inside = False
    n = len(ring)
    for i in range(n):
        (x0, y0), (x1, y1) = ring[i], ring[(i + 1) % n]
        if (y0 > p[1]) != (y1 > p[1]):
            if p[0] < x0 + (p[1] - y0) * (x1 - x0) / (y1 - y0):
                inside = not inside
    return inside


def ring_distance(p, ring):
    n = len(ring)
    return min(point_segment(p, ring[i], ring[(i + 1) % n]) for i in range(n))


def shoelace(ring):
    n = len(ring)
    # relative to a corner, to keep the digits of shifted polygons
    o = ring[0]
    return .5 * sum(cross(sub(ring[i], o), sub(ring[(i + 1) % n], o))
                    for i in range(n))
