"""Delaunay triangulation and Voronoi diagram in the plane.

A sweep builds some triangulation, Lawson flips make it Delaunay. Predicates
are evaluated in floating point with an exact rational fallback.
"""
import math
from fractions import Fraction

import numpy as np


class QhullError(RuntimeError):
    pass


def _orient(a, b, c):
    l = (b[0] - a[0]) * (c[1] - a[1])
    r = (b[1] - a[1]) * (c[0] - a[0])
    d = l - r
    if abs(d) > 1e-14 * (abs(l) + abs(r)):
        return 1 if d > 0 else -1
    F = Fraction
    d = (F(b[0]) - F(a[0])) * (F(c[1]) - F(a[1])) - \
        (F(b[1]) - F(a[1])) * (F(c[0]) - F(a[0]))
    return (d > 0) - (d < 0)


def _incircle(a, b, c, d):
    """> 0 if d is inside of the circle through counter clockwise a, b, c."""
    def det(ax, ay, bx, by, cx, cy):
        return ((ax * ax + ay * ay) * (bx * cy - cx * by) -
                (bx * bx + by * by) * (ax * cy - cx * ay) +
                (cx * cx + cy * cy) * (ax * by - bx * ay))
    v = (a[0] - d[0], a[1] - d[1], b[0] - d[0], b[1] - d[1],
         c[0] - d[0], c[1] - d[1])
    r = det(*v)
    m = max(abs(x) for x in v) or 1.0
    if abs(r) > 1e-12 * m ** 4:
        return 1 if r > 0 else -1
    F = Fraction
    dx, dy = F(d[0]), F(d[1])
    r = det(F(a[0]) - dx, F(a[1]) - dy, F(b[0]) - dx, F(b[1]) - dy,
            F(c[0]) - dx, F(c[1]) - dy)
    return (r > 0) - (r < 0)


def _triangulate(pts):
    """Indices of triangles (counter clockwise) of distinct points."""
    n = len(pts)
    order = sorted(range(n), key=lambda i: pts[i])
    P = [pts[i] for i in order]
    # first non collinear point
    k = 2
    while k < n and _orient(P[0], P[1], P[k]) == 0:
        k += 1
    if n < 3 or k == n:
        raise QhullError('QH6013 qhull input error: input is less than '
                         '3-dimensional since it has the same x coordinate')
    tris = []
    # fan from the first non collinear point over the collinear chain
    chain = list(range(k))
    if _orient(P[0], P[1], P[k]) > 0:
        for i in range(k - 1):
            tris.append([i, i + 1, k])
        hull = chain + [k]
    else:
        for i in range(k - 1):
            tris.append([i + 1, i, k])
        hull = [k] + chain[::-1]
        hull = chain[::-1] + [k]
    # hull is counter clockwise
    for i in range(k + 1, n):
        p = P[i]
        m = len(hull)
        vis = [_orient(hull_a, hull_b, p) < 0 for hull_a, hull_b in
               ((P[hull[j]], P[hull[(j + 1) % m]]) for j in range(m))]
        # visible edges form one contiguous run
        start = next(j for j in range(m) if vis[j] and not vis[j - 1])
        j = start
        run = []
        while vis[j % m] and len(run) < m:
            run.append(j % m)
            j += 1
        for e in run:
            tris.append([hull[(e + 1) % m], hull[e], i])
        s, t = run[0], (run[-1] + 1) % m
        new = [hull[s], i]
        e = t
        while e != s:
            new.append(hull[e])
            e = (e + 1) % m
        hull = new
    # Lawson flips
    edge = {}
    for ti, t in enumerate(tris):
        for a in range(3):
            edge[(t[a], t[(a + 1) % 3])] = ti
    stack = list(edge)
    guard = 0
    while stack:
        a, b = stack.pop()
        t1, t2 = edge.get((a, b)), edge.get((b, a))
        if t1 is None or t2 is None:
            continue
        c = next(v for v in tris[t1] if v != a and v != b)
        d = next(v for v in tris[t2] if v != a and v != b)
        if _incircle(P[a], P[b], P[c], P[d]) > 0:
            guard += 1
            if guard > 200 * n * n + 1000:
                raise RuntimeError('flips did not terminate')
            for e in ((a, b), (b, a)):
                del edge[e]
            tris[t1] = [a, d, c]
            tris[t2] = [d, b, c]
            for ti in (t1, t2):
                t = tris[ti]
                for q in range(3):
                    edge[(t[q], t[(q + 1) % 3])] = ti
            stack.extend([(a, d), (d, b), (b, c), (c, a)])
    return [[order[v] for v in t] for t in tris]


class Delaunay(object):
    def __init__(self, points, furthest_site=False, incremental=False,
                 qhull_options=None):
        points = np.asarray(points, dtype=np.float64)
        if points.ndim != 2 or points.shape[1] != 2:
            raise NotImplementedError('ShimMissing: only planar points')
        if not np.isfinite(points).all():
            raise QhullError('points contain nan or inf')
        self.points = points
        uniq = {}
        for i, p in enumerate(map(tuple, points.tolist())):
            uniq.setdefault(p, i)
        pts = list(uniq)
        idx = list(uniq.values())
        tris = _triangulate(pts)
        self.simplices = np.array([[idx[v] for v in t] for t in tris],
                                  dtype=np.int32).reshape(-1, 3)
        self.npoints = len(points)
        self.ndim = 2

    @property
    def nsimplex(self):
        return len(self.simplices)

    def find_simplex(self, xi, bruteforce=False, tol=None):
        xi = np.asarray(xi, dtype=np.float64)
        flat = xi.reshape(-1, 2)
        out = np.full(len(flat), -1, dtype=np.int64)
        for t, (a, b, c) in enumerate(self.points[self.simplices]):
            def s(p, q):
                return (q[0] - p[0]) * (flat[:, 1] - p[1]) - \
                       (q[1] - p[1]) * (flat[:, 0] - p[0])
            eps = -1e-12
            inside = (s(a, b) >= eps) & (s(b, c) >= eps) & (s(c, a) >= eps)
            out[inside & (out < 0)] = t
        return out.reshape(xi.shape[:-1])


def _circumcenter(a, b, c):
    ax, ay = a
    bx, by = b[0] - ax, b[1] - ay
    cx, cy = c[0] - ax, c[1] - ay
    d = 2 * (bx * cy - by * cx)
    ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / d
    uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / d
    return ax + ux, ay + uy


class Voronoi(object):
    def __init__(self, points, furthest_site=False, incremental=False,
                 qhull_options=None):
        points = np.asarray(points, dtype=np.float64)
        if points.ndim != 2 or points.shape[1] != 2:
            raise NotImplementedError('ShimMissing: only planar points')
        pts = [tuple(p) for p in points.tolist()]
        if len(set(pts)) != len(pts):
            raise NotImplementedError('ShimMissing: duplicate points')
        self.points = points
        tris = _triangulate(pts)
        edge = {}
        for ti, t in enumerate(tris):
            for a in range(3):
                edge[(t[a], t[(a + 1) % 3])] = ti
        # merge vertices of cocircular neighbours
        parent = list(range(len(tris)))

        def find(i):
            while parent[i] != i:
                parent[i] = parent[parent[i]]
                i = parent[i]
            return i

        for (a, b), t1 in edge.items():
            t2 = edge.get((b, a))
            if t2 is None or a > b:
                continue
            c = next(v for v in tris[t1] if v != a and v != b)
            d = next(v for v in tris[t2] if v != a and v != b)
            if _incircle(pts[a], pts[b], pts[c], pts[d]) == 0:
                parent[find(t1)] = find(t2)
        ids, verts = {}, []
        for ti in range(len(tris)):
            r = find(ti)
            if r not in ids:
                ids[r] = len(verts)
                verts.append(_circumcenter(*[pts[v] for v in tris[r]]))
        vid = [ids[find(ti)] for ti in range(len(tris))]
        self.vertices = np.array(verts).reshape(-1, 2)
        ridge_points, ridge_vertices = [], []
        for (a, b), t1 in sorted(edge.items()):
            t2 = edge.get((b, a))
            if t2 is None:
                ridge_points.append((a, b))
                ridge_vertices.append([-1, vid[t1]])
            elif a < b and vid[t1] != vid[t2]:
                ridge_points.append((a, b))
                ridge_vertices.append([vid[t1], vid[t2]])
        self.ridge_points = np.array(ridge_points, dtype=np.int32)
        self.ridge_vertices = ridge_vertices
        # regions in cyclic order around the point; -1 for the unbounded part
        self.regions = [[]]
        self.point_region = np.zeros(len(pts), dtype=np.int64)
        around = {}
        for ti, t in enumerate(tris):
            for k in range(3):
                # triangle ti sits between edges (p, q) and (p, r)
                around.setdefault(t[k], {})[t[(k + 1) % 3]] = \
                    (t[(k + 2) % 3], ti)
        for p in range(len(pts)):
            star = around[p]
            targets = {r for r, _ in star.values()}
            starts = [q for q in star if q not in targets]
            q = starts[0] if starts else next(iter(star))
            first = q
            reg = []
            while q in star:
                r, ti = star[q]
                if not reg or reg[-1] != vid[ti]:
                    reg.append(vid[ti])
                q = r
                if q == first:
                    break
            if starts:
                reg.append(-1)
            elif len(reg) > 1 and reg[0] == reg[-1]:
                reg.pop()
            self.point_region[p] = len(self.regions)
            self.regions.append(reg)
        self.ndim = 2
        self.npoints = len(pts)


class ConvexHull(object):
    def __init__(self, points, incremental=False, qhull_options=None):
        points = np.asarray(points, dtype=np.float64)
        self.points = points
        uniq = {}
        for i, p in enumerate(map(tuple, points.tolist())):
            uniq.setdefault(p, i)
        pts = sorted(uniq)

        def half(seq):
            h = []
            for p in seq:
                while len(h) >= 2 and _orient(h[-2], h[-1], p) <= 0:
                    h.pop()
                h.append(p)
            return h

        lo, up = half(pts), half(pts[::-1])
        hull = lo[:-1] + up[:-1]
        if len(hull) < 3:
            raise QhullError('input is less than 2-dimensional')
        self.vertices = np.array([uniq[p] for p in hull], dtype=np.int32)
        self.simplices = np.stack((self.vertices, np.roll(self.vertices, -1)),
                                  axis=1)
        h = np.array(hull)
        nx = np.roll(h, -1, axis=0)
        self.volume = 0.5 * abs(np.sum(h[:, 0] * nx[:, 1] - h[:, 1] * nx[:, 0]))
        self.area = np.sum(np.hypot(*(h - nx).T))


class cKDTree(object):
    """Brute force with the interface of the tree."""

    def __init__(self, data, *args, **kwargs):
        self.data = np.asarray(data, dtype=np.float64)
        self.n, self.m = self.data.shape

    def _d(self, x):
        return np.sqrt(((self.data - np.asarray(x, dtype=np.float64)) ** 2)
                       .sum(axis=-1))

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf, **kw):
        x = np.asarray(x, dtype=np.float64)
        flat = x.reshape(-1, self.m)
        D = np.full((len(flat), k), np.inf)
        I = np.full((len(flat), k), self.n, dtype=np.int64)
        for r, q in enumerate(flat):
            d = self._d(q)
            o = np.argsort(d, kind='stable')[:k]
            o = o[d[o] < distance_upper_bound]
            D[r, :len(o)] = d[o]
            I[r, :len(o)] = o
        shape = x.shape[:-1]
        if k == 1:
            D, I = D[:, 0].reshape(shape), I[:, 0].reshape(shape)
            return (D, I) if shape else (float(D), int(I))
        return D.reshape(shape + (k,)), I.reshape(shape + (k,))

    def query_ball_point(self, x, r, p=2.0, eps=0, **kw):
        x = np.asarray(x, dtype=np.float64)
        if x.ndim == 1:
            return [int(i) for i in np.nonzero(self._d(x) <= r)[0]]
        out = np.empty(len(x), dtype=object)
        for i, q in enumerate(x):
            out[i] = [int(k) for k in np.nonzero(self._d(q) <= r)[0]]
        return out

    def query_pairs(self, r, p=2.0, eps=0, output_type='set'):
        s = set()
        for i in range(self.n):
            for j in np.nonzero(self._d(self.data[i]) <= r)[0]:
                if j > i:
                    s.add((i, int(j)))
        return s


KDTree = cKDTree
