"""Random polygons (convex, star shaped, thin, closed rings, points on edges,
clockwise, far from the origin), line strings with two to many segments of very
unequal length, single triangles and segments. Every sample is tested for
containment; per batch, the share of each part of an independent partition (half
planes, arc length, barycentric coordinates) is tested against its area or
length (chance of a false alarm below 1e-9 per test). Non-trivial: parts of
unequal measure."""
import math

import numpy as np
from shapely.geometry import LineString, Polygon

from crowddynamics.core import sampling as S
from exact import closest_on_segment, cross, dist, point_segment, shoelace, sub
from geoms import rect, star
from harness import section
from stats import LAMBDA, binomial_ok, ks, uniform_cdf

RULE = __doc__


def hull(points):
    """Counter clockwise corners of the convex hull."""
    p = sorted(set(points))

    def half(seq):
        out = []
        for q in seq:
            while len(out) > 1 and cross(sub(out[-1], out[-2]),
                                         sub(q, out[-2])) <= 0:
                out.pop()
            out.append(q)
        return out[:-1]
    return half(p) + half(p[::-1])


def clip(ring, a, n):
    """Part of a convex ring with (p - a) . n <= 0"""
    out = []
    side = lambda p: (p[0] - a[0]) * n[0] + (p[1] - a[1]) * n[1]
    for i in range(len(ring)):
        p, q = ring[i - 1], ring[i]
        s, t = side(p), side(q)
        if (s <= 0) != (t <= 0):
            k = s / (s - t)
            out.append((p[0] + k * (q[0] - p[0]), p[1] + k * (q[1] - p[1])))
        if t <= 0:
            out.append(q)
    return out


def area(ring):
    return abs(shoelace(ring)) if len(ring) > 2 else 0.0


def make_polygon(c):
    r = c.rng
    k = r.randrange(6)
    if k == 0:
        p = star(c, (r.uniform(-9, 9), r.uniform(-9, 9)), 5.0, n=3)
    elif k == 1:
        p = star(c, (0.0, 0.0), 5.0, n=r.choice([5, 9, 14]), lo=.1)
    elif k == 2:
        p = rect(c)
    elif k == 3:             # long and thin
        w = r.uniform(5, 50)
        p = [(0.0, 0.0), (w, r.uniform(-1, 1)), (w, r.uniform(1.2, 2)),
             (w / 3, r.uniform(2, 3)), (0.0, .3)]
    elif k == 4:             # one large and many small corners
        p = [(0.0, 0.0), (10.0, 0.0), (10.0, 10.0)] + \
            [(-.2 + .3 * math.cos(a), 2 + .3 * math.sin(a))
             for a in (2.0, 2.5, 3.0)]
    else:                    # points on the edges
        p = [(0.0, 0.0), (2.0, 0.0), (4.0, 0.0), (4.0, 3.0), (2.0, 3.0),
             (0.0, 3.0)]
    if r.random() < .08:     # many corners, not in order of angle
        m = r.choice([40, 100, 200])
        p = [(r.choice([1.0, 6.0]) * math.cos(2 * math.pi * i / m),
              3 * math.sin(2 * math.pi * i / m)) for i in range(m)]
        w = r.randrange(m)
        p = p[w:] + p[:w]
        c.count('polygons of many corners')
    if r.random() < .3:
        t = (r.uniform(-500, 500), r.uniform(-500, 500))
        p = [(x + t[0], y + t[1]) for x, y in p]
    if r.random() < .5:
        p = p[::-1]
    if r.random() < .5:
        p = p + [p[0]]       # closed, as the rings of polygons are
    return p


def inside(c, p, ring, mech):
    scale = 1 + max(abs(v) for q in ring for v in q)
    for i in range(len(ring)):
        a, b = ring[i - 1], ring[i]
        s = cross(sub(b, a), sub(p, a)) / dist(a, b)
        c.check(s >= -1e-9 * scale, mech, p, ring, s)


def draw(c, it, n, mech):
    out = []
    for _ in range(n):
        v = c.call(mech, next, it)
        c.check(np.asarray(v).shape == (2,), mech + '-shape', v)
        out.append((float(v[0]), float(v[1])))
    return out


@section('polygon', 60, 3000)
def polygon(c):
    r = c.rng
    p = make_polygon(c)
    ring = hull([tuple(q) for q in p])
    total = area(ring)
    n = r.choice([30, 800, 800])
    v = np.array(p)
    keep = v.copy()
    pts = draw(c, c.call('polygon_sample', S.polygon_sample, v), n, 'polygon')
    c.check(np.array_equal(v, keep), 'argument-changed')
    for q in pts:
        inside(c, q, ring, 'outside-hull')
    c.check(len(set(pts)) > n * .99, 'repeated-points')
    # halves through random lines, and corners cut off
    for _ in range(8):
        b = r.uniform(-math.pi, math.pi)
        nrm = (math.cos(b), math.sin(b))
        w = [r.random() for _ in ring]
        s = sum(w)
        a = (sum(x * q[0] for x, q in zip(w, ring)) / s,
             sum(x * q[1] for x, q in zip(w, ring)) / s)
        share = area(clip(ring, a, nrm)) / total
        k = sum((q[0] - a[0]) * nrm[0] + (q[1] - a[1]) * nrm[1] <= 0
                for q in pts)
        c.check(binomial_ok(k, n, min(1, max(0, share))), 'share-of-area', k,
                'of', n, 'expected share', share, ring)
        c.count('share-tests')
    c.state('polygon', len(p), len(ring))
    c.nontrivial(p)
    c.sample((len(p), len(ring), n))


def many(c, p, lengths, v):
    """Parts that are met rarely, all judged at once: the sum of the squared
    differences has a variance that is known."""
    n = 12000
    a, b = np.array(p[:-1]), np.array(p[1:])
    d = b - a
    got = np.zeros(len(lengths))
    it = c.call('linestring_sample', S.linestring_sample, v)
    for q in draw(c, it, n, 'linestring'):
        w = np.array(q) - a
        t = np.clip((w * d).sum(1) / (d * d).sum(1), 0, 1)
        got[int(np.argmin(np.hypot(*(w - d * t[:, None]).T)))] += 1
    share = np.array(lengths) / sum(lengths)
    chi = float((((got - n * share) ** 2) / (n * share)).sum())
    k = len(lengths) - 1
    var = 2 * k + float((1 / share).sum() - k * k - 4 * k - 1) / n
    c.check(chi < k + 9 * math.sqrt(var), 'share-of-many', chi, 'of', k,
            'variance', var)
    c.count('share-tests', len(lengths))


@section('linestring', 80, 4000)
def linestring(c):
    r = c.rng
    m = r.choice([2, 2, 3, 4, 9, 9, 250])
    p = [(r.uniform(-9, 9), r.uniform(-9, 9))]
    while len(p) < m:
        a, q = r.uniform(-3.2, 3.2), r.choice([.05, 1.0, 1.0, 20.0])
        p.append((p[-1][0] + q * math.cos(a), p[-1][1] + q * math.sin(a)))
    lengths = [dist(a, b) for a, b in zip(p, p[1:])]
    total = sum(lengths)
    v = np.array(p)
    keep = v.copy()
    cum = c.call('linestring_length_cumsum', S.linestring_length_cumsum, v)
    want = [sum(lengths[:k + 1]) for k in range(len(lengths))]
    c.close(cum, want, 'cumulative-length', rtol=1e-12)
    c.check(all(a <= b for a, b in zip(cum, cum[1:])), 'length-decreases', cum)
    n = r.choice([30, 1500, 1500])
    if m > 100:
        many(c, p, lengths, v)
        n = 30
    pts = draw(c, c.call('linestring_sample', S.linestring_sample, v), n,
               'linestring')
    c.check(np.array_equal(v, keep), 'argument-changed')
    arcs = []
    for q in pts:
        best = min((point_segment(q, a, b), k)
                   for k, (a, b) in enumerate(zip(p, p[1:])))
        c.check(best[0] < 1e-9 * 100, 'off-the-line', q, p, best)
        # parts of a crossing line share points of no length
        k = best[1]
        arcs.append(sum(lengths[:k]) + dist(p[k], closest_on_segment(
            q, p[k], p[k + 1])))
    d = ks(arcs, uniform_cdf(0, total))
    c.check(d < LAMBDA, 'share-of-length', 'KS', d, 'of', n, lengths)
    for k in range(len(lengths)):
        low = sum(lengths[:k])
        got = sum(low <= s < low + lengths[k] for s in arcs)
        c.check(binomial_ok(got, n, lengths[k] / total), 'share-of-segment',
                k, got, 'of', n, 'expected share', lengths[k] / total)
        c.count('share-tests')
    if max(lengths) > 1.5 * min(lengths) or m == 2:
        c.nontrivial(p)
    c.state('segments', m)
    c.sample((lengths, n))


@section('single', 60, 3000)
def single(c):
    """One triangle, one segment, and the weights of a mesh."""
    r = c.rng
    t = star(c, (r.uniform(-50, 50), r.uniform(-5, 5)), 10 ** r.uniform(-1, 2),
             n=3)
    a, b, d = [np.array(q) for q in t]
    n = 800
    pts = []
    for _ in range(n):
        q = c.call('random_sample_triangle', S.random_sample_triangle, a, b, d)
        pts.append((float(q[0]), float(q[1])))
    whole = area(t)
    bary = []
    for k in range(3):
        o = [t[(k + 1) % 3], t[(k + 2) % 3]]
        s = cross(sub(t[k], o[0]), sub(o[1], o[0]))
        bary.append([cross(sub(q, o[0]), sub(o[1], o[0])) / s for q in pts])
        for x in bary[-1]:
            c.check(-1e-7 <= x <= 1 + 1e-7, 'outside-triangle', x, t)
        # the part beyond x is a similar triangle of (1 - x) times the size
        e = ks(bary[-1], lambda x: 1 - (1 - min(1, max(0, x))) ** 2)
        c.check(e < LAMBDA, 'triangle-law', k, 'KS', e)
    p0, p1 = [np.array((r.uniform(-9, 9), r.uniform(-9, 9)))
              for _ in range(2)]
    ts = []
    for _ in range(n):
        q = c.call('random_sample_line', S.random_sample_line, p0, p1)
        w = p1 - p0
        s = float(np.dot(q - p0, w) / np.dot(w, w))
        c.check(dist(q, p0 + s * w) < 1e-9 and -1e-12 <= s <= 1 + 1e-12,
                'off-the-segment', q, s)
        ts.append(s)
    e = ks(ts, uniform_cdf(0, 1))
    c.check(e < LAMBDA, 'segment-law', 'KS', e)
    m = r.choice([1, 2, 7])
    mesh = [star(c, (r.uniform(-9, 9), 0.0), 10 ** r.uniform(-2, 1), n=3)
            for _ in range(m)]
    if r.random() < .3:
        mesh = [q[::-1] for q in mesh]
    cum = c.call('triangle_area_cumsum', S.triangle_area_cumsum,
                 np.array(mesh))
    areas = [area(q) for q in mesh]
    c.close(cum, [sum(areas[:k + 1]) for k in range(m)], 'cumulative-area',
            rtol=1e-9)
    c.check(all(x <= y for x, y in zip(cum, cum[1:])), 'area-decreases', cum)
    c.nontrivial(t, mesh)
    c.sample((t, m))
