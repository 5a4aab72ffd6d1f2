"""Development-time validation of the stand-ins against the real scipy of
python3-vt (run: python3-vt tools/validate_shims.py).  Not part of a check."""
import importlib.util, os, sys
import numpy as np
import scipy.spatial, scipy.stats, scipy.interpolate
SH = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'shims')


def load(name, rel):
    spec = importlib.util.spec_from_file_location(name, os.path.join(SH, rel))
    m = importlib.util.module_from_spec(spec); sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


D = load('sdel', 'scipy/spatial/_delaunay.py')
S = load('sstats', 'scipy/stats/__init__.py')
I = load('sint', 'scipy/interpolate/__init__.py')
rs = np.random.RandomState(int(sys.argv[1]) if len(sys.argv) > 1 else 0)


def poly_area(p):
    x, y = p[:, 0], p[:, 1]
    return abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))) / 2


for t in range(300):
    n = rs.randint(4, 40)
    p = rs.uniform(-5, 5, (n, 2))
    if t % 3 == 0:
        p = np.round(p * 2) / 2
        p = np.unique(p, axis=0)
        if len(p) < 4 or np.linalg.matrix_rank(p[1:] - p[0]) < 2:
            continue
    a, b = D.Delaunay(p), scipy.spatial.Delaunay(p)
    sa = sum(poly_area(p[s]) for s in a.simplices)
    sb = sum(poly_area(p[s]) for s in b.simplices)
    assert abs(sa - sb) < 1e-9, (t, sa, sb)
    if t % 3:
        assert set(map(frozenset, a.simplices.tolist())) == set(map(frozenset, b.simplices.tolist()))
        assert abs(D.ConvexHull(p).volume - scipy.spatial.ConvexHull(p).volume) < 1e-9
        va, vb = D.Voronoi(p), scipy.spatial.Voronoi(p)
        for k in range(n):
            ra, rb = va.regions[va.point_region[k]], vb.regions[vb.point_region[k]]
            assert (-1 in ra) == (-1 in rb), (t, k)
            xa = np.array(sorted(map(tuple, np.round(va.vertices[[v for v in ra if v >= 0]], 6).tolist())))
            xb = np.array(sorted(map(tuple, np.round(vb.vertices[[v for v in rb if v >= 0]], 6).tolist())))
            assert xa.shape == xb.shape and np.allclose(xa, xb, atol=1e-5), (t, k, xa, xb)
        assert set(map(frozenset, np.asarray(va.ridge_points).tolist())) == set(map(frozenset, vb.ridge_points.tolist()))
    q = rs.uniform(-6, 6, (20, 2))
    fa, fb = a.find_simplex(q), b.find_simplex(q)
    assert ((fa < 0) == (fb < 0)).all()
    ka, kb = D.cKDTree(p), scipy.spatial.cKDTree(p)
    if t % 3:
        for k in (1, 2, 3):
            da, ia = ka.query(q, k); db, ib = kb.query(q, k)
            assert np.allclose(da, db) and (np.asarray(ia) == ib).all()
        na = I.NearestNDInterpolator(p, np.arange(n))(q[:, 0], q[:, 1])
        nb = scipy.interpolate.NearestNDInterpolator(p, np.arange(n))(q[:, 0], q[:, 1])
        assert (na == nb).all()
for a, b, loc, sc in ((-3, 3, 0, 1), (-2, 1, .5, 2), (1, 3, -1, .3), (4, 6, 0, 1)):
    x = S.truncnorm.rvs(a, b, loc, sc, size=4000, random_state=1)
    assert scipy.stats.kstest(x, lambda v: scipy.stats.truncnorm.cdf(v, a, b, loc, sc)).pvalue > 1e-4
    if a < 3:
        xs = np.linspace(loc + a * sc - 1, loc + b * sc + 1, 50)
        assert np.allclose(S.truncnorm.cdf(xs, a, b, loc, sc), scipy.stats.truncnorm.cdf(xs, a, b, loc, sc))
print('shims agree with scipy')
