"""Random domains with obstacles and targets that are clear of each other."""
import math

from shapely.geometry import (GeometryCollection, LineString, MultiLineString,
                              MultiPolygon, Polygon)

from exact import point_segment
from gridways import boundary_distance, inside, segments
from geoms import star


def to_shapely(geom):
    parts = []
    for p in geom:
        if p[0] == 'line':
            parts.append(LineString(p[1]))
        else:
            parts.append(Polygon(p[1], [list(h) for h in p[2]]))
    if len(parts) == 1:
        return parts[0]
    kinds = {p[0] for p in geom}
    if kinds == {'line'}:
        return MultiLineString([list(p[1]) for p in geom])
    if kinds == {'poly'} and not any(p[2] for p in geom):
        return MultiPolygon([(p[1], []) for p in geom])
    return GeometryCollection(parts)


def seg_seg(a, b, c, d):
    def side(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    if side(a, b, c) * side(a, b, d) < 0 and side(c, d, a) * side(c, d, b) < 0:
        return 0.0
    return min(point_segment(a, c, d), point_segment(b, c, d),
               point_segment(c, a, b), point_segment(d, a, b))


def clearance(g, h):
    """Smallest distance between two geometries."""
    d = min(seg_seg(a, b, c, e) for a, b in segments(g)
            for c, e in segments(h))
    for x, y in ((g, h), (h, g)):
        if any(inside(a, y) for a, _ in segments(x)):
            return 0.0
    return d


def snap(c, p, q):
    """Numbers as people write them, or not."""
    return [(round(x, q), round(y, q)) for x, y in p] if q is not None else p


class Scene(object):
    pass


def part(c, w, h, o, size, kinds=('line', 'path', 'rect', 'star')):
    r = c.rng
    k = r.choice(kinds)
    m = size
    x = o[0] + r.uniform(.05, .95) * w
    y = o[1] + r.uniform(.05, .95) * h
    if k == 'line':
        a = r.choice([0.0, math.pi / 2, r.uniform(0, math.pi)])
        l = r.uniform(.5, 1.5) * m
        return ('line', [(x, y), (x + l * math.cos(a), y + l * math.sin(a))])
    if k == 'path':
        pts = [(x, y)]
        for _ in range(r.randint(2, 4)):
            a = r.uniform(0, 2 * math.pi)
            l = r.uniform(.3, .8) * m
            pts.append((pts[-1][0] + l * math.cos(a),
                        pts[-1][1] + l * math.sin(a)))
        return ('line', pts)
    if k == 'rect':
        a, b = r.uniform(.3, 1) * m, r.uniform(.3, 1) * m
        return ('poly', [(x, y), (x + a, y), (x + a, y + b), (x, y + b)], [])
    if k == 'star':
        return ('poly', star(c, (x, y), m * .7), [])
    if k == 'frame':
        a, b = r.uniform(.8, 1.2) * m, r.uniform(.8, 1.2) * m
        t = .25 * min(a, b)
        return ('poly', [(x, y), (x + a, y), (x + a, y + b), (x, y + b)],
                [[(x + t, y + t), (x + a - t, y + t), (x + a - t, y + b - t),
                  (x + t, y + b - t)]])
    raise ValueError(k)


def within(p, o, w, h, margin):
    return all(o[0] + margin <= x <= o[0] + w - margin and
               o[1] + margin <= y <= o[1] + h - margin
               for s in segments([p]) for x, y in s)


def make(c, step=None, cells=(18, 45), nobs=(1, 4), ntargets=1, clear=3.0,
         gap=0.0, obs_kinds=('line', 'path', 'rect', 'star'),
         target_kinds=('edge', 'line', 'path', 'rect', 'star')):
    """Scene with a rectangular (sometimes corner-cut) domain. Obstacles and
    targets are ``clear`` steps + gap apart; obstacles may touch each other."""
    r = c.rng
    s = Scene()
    s.step = step = step or r.choice([.1, .25, .5, 1.0, r.uniform(.05, 1.5)])
    w = r.uniform(*cells) * step
    h = r.uniform(*cells) * step
    o = r.choice([(0.0, 0.0), (0.0, 0.0), (r.uniform(-30, 30),
                                          r.uniform(-30, 30)),
                  (-w / 2, -h / 2), (float(r.randint(-9, 9)), 1.0)])
    if r.random() < .5:      # a whole number of steps
        w, h = step * round(w / step), step * round(h / step)
    s.w, s.h, s.o = w, h, o
    ring = [o, (o[0] + w, o[1]), (o[0] + w, o[1] + h), (o[0], o[1] + h)]
    if r.random() < .2:
        k = r.uniform(.05, .2)
        ring = [o, (o[0] + w, o[1]), (o[0] + w, o[1] + h * (1 - k)),
                (o[0] + w * (1 - k), o[1] + h), (o[0], o[1] + h)]
    s.ring = ring
    s.domain = Polygon(ring)
    size = .35 * min(w, h)
    s.targets = []
    need = clear * step + gap
    for _ in range(200):
        if len(s.targets) == ntargets:
            break
        k = r.choice(target_kinds)
        if k == 'edge':
            side = r.randrange(2)     # left or bottom edge, whole ring edges
            t0 = r.uniform(.1, .5)
            t1 = t0 + r.uniform(.2, .4)
            a, b = ring[0], (ring[1] if side else ring[-1])
            p = ('line', [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
                          for t in (t0, t1)])
        else:
            p = part(c, w, h, o, size, (k,))
            if not within(p, o, w, h, 1.5 * step) or \
                    any(not inside(a, [('poly', ring, [])])
                        for a, _ in segments([p])):
                continue
        if all(clearance([p], t) > need for t in s.targets):
            s.targets.append([p])
    if len(s.targets) < ntargets:
        c.skip('no room for targets')
    s.obstacles = []
    want = r.randint(*nobs)
    for _ in range(60):
        if len(s.obstacles) == want:
            break
        p = part(c, w, h, o, size, obs_kinds)
        if not within(p, o, w, h, 0.0) or \
                any(not inside(a, [('poly', ring, [])])
                    for a, _ in segments([p])):
            continue
        if all(clearance([p], t) > need for t in s.targets) and \
                all(clearance([p], [q]) > .02 * step for q in s.obstacles):
            s.obstacles.append(p)
    return s


def random_point(c, s, margin=0.0):
    for _ in range(1000):
        p = (s.o[0] + c.rng.uniform(margin, s.w - margin),
             s.o[1] + c.rng.uniform(margin, s.h - margin))
        if inside(p, [('poly', s.ring, [])]):
            return p
    c.skip('no point')
