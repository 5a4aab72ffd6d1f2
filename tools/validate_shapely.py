"""Development-time fuzzing of the shapely stand-in: algebraic area/length
identities and point membership (run: /opt/venv/bin/python tools/validate_shapely.py [seed] [n])."""
import os, sys, math, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'shims'))
import numpy as np
from shapely.geometry import *
from shapely.ops import unary_union, cascaded_union
rs = np.random.RandomState(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 200


def star(c, r, n):
    a = np.sort(rs.uniform(0, 2 * math.pi, n))
    k = np.linspace(0, 2 * math.pi, n, endpoint=False) + rs.uniform(0, .5)
    rr = r * rs.uniform(.3, 1, n)
    return [(c[0] + q * math.cos(t), c[1] + q * math.sin(t)) for q, t in zip(rr, k)]


def rect(grid=True):
    x, y = rs.randint(-6, 6, 2); w, h = rs.randint(1, 6, 2)
    return Polygon([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])


def rpoly():
    t = rs.randint(4)
    if t == 0: return rect()
    if t == 1: return Polygon(star(rs.uniform(-3, 3, 2), rs.uniform(1, 5), rs.randint(3, 12)))
    if t == 2:
        s = rs.uniform(2, 5); c = rs.uniform(-2, 2, 2)
        return Polygon([(c[0]-s, c[1]-s), (c[0]+s, c[1]-s), (c[0]+s, c[1]+s), (c[0]-s, c[1]+s)],
                       [[(c[0]-s/2, c[1]-s/2), (c[0]+s/3, c[1]-s/2), (c[0]+s/2, c[1]+s/2)]])
    return rect() | rect()


def rline():
    if rs.rand() < .5:
        return LineString([tuple(p) for p in rs.randint(-6, 7, (rs.randint(2, 5), 2)).tolist()]) if rs.rand() < .9 else LineString([(0, 0), (5, 0)])
    return LineString(rs.uniform(-6, 6, (rs.randint(2, 5), 2)).tolist())


t0 = time.time(); mem = 0
for k in range(N):
    a, b, c = rpoly(), rpoly(), rpoly()
    u, i, d, e, x = a | b, a & b, a - b, b - a, a ^ b
    tol = 4e-6 * (1 + a.area + b.area)
    assert abs(u.area + i.area - a.area - b.area) < tol, (k, a.wkt, b.wkt, u.area, i.area, a.area, b.area, a.is_valid, b.is_valid)
    assert abs(d.area + i.area - a.area) < tol, (k, a.wkt, b.wkt, u.area, i.area, a.area, b.area, a.is_valid, b.is_valid)
    assert abs(x.area - d.area - e.area) < tol, (k, a.wkt, b.wkt, u.area, i.area, a.area, b.area, a.is_valid, b.is_valid)
    assert abs((a | b | c).area - unary_union([c, a, b]).area) < tol
    for g in (u, i, d, x):
        assert g.is_valid, (k, g.wkt)
    P = rs.uniform(-8, 8, (40, 2))
    for p in P.tolist():
        q = Point(p)
        if min(a.boundary.distance(q), b.boundary.distance(q)) < 1e-6:
            continue
        mem += 1
        ia, ib = a.contains(q), b.contains(q)
        assert u.contains(q) == (ia or ib) and i.contains(q) == (ia and ib) and d.contains(q) == (ia and not ib) and x.contains(q) == (ia != ib), (k, p)
        assert a.intersects(q) == ia
    assert a.intersects(b) == (a.distance(b) < 1e-12)
    if i.area > 1e-9: assert a.intersects(b)
    assert (a.contains(b)) == (e.area < 1e-5 and e.is_empty), (k, a.wkt, b.wkt, e.area)
    l = rline()
    if l.length == 0: continue
    li, ld = l & a, l - a
    if l.is_simple:
        assert abs(li.length + ld.length - l.length) < 1e-7, (k, l.wkt, a.wkt, li.length, ld.length, l.length)
    r = rs.uniform(.2, 1)
    bu = l.buffer(r)
    for p in P[:15].tolist():
        q = Point(p); dd = l.distance(q)
        if dd < r * .99: assert bu.contains(q), k
        if dd > r * 1.0001: assert not bu.contains(q), k
    bu = a.buffer(r)
    for p in P[:15].tolist():
        q = Point(p); dd = a.distance(q)
        if dd < r * .99: assert bu.contains(q), k
        if dd > r * 1.0001: assert not bu.contains(q), k
    h = u.convex_hull
    assert h.area >= u.area - tol and (u - h).area < 1e-7
    m = mapping(u); assert shape(m).equals(u)
print('ok', N, mem, time.time() - t0)
