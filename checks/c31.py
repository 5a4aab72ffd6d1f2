"""Random crowds (any place in the plane, also around the origin, few and many
agents, clusters, large and small cells, agents on borders of cells). Monitors:
the whole density grid against own counts per cell, against areas of Voronoi
cells that are cut out of the observed area by bisectors and then by the cells
of the grid, and against those areas summed per cell; the total is the number of
agents; the given positions keep their bytes. Non-trivial: grids of several
cells that are not square, crowds on both sides of an axis."""
import math

import numpy as np

from crowddynamics.core import quantities as D
from exact import dist, shoelace
from harness import section

RULE = __doc__


def clip(ring, a, n):
    """Part of a convex ring with (p - a) . n <= 0"""
    out = []
    side = lambda p: (p[0] - a[0]) * n[0] + (p[1] - a[1]) * n[1]
    for i in range(len(ring)):
        p, q = ring[i - 1], ring[i]
        s, t = side(p), side(q)
        if (s <= 0) != (t <= 0):
            k = s / (s - t)
            out.append((p[0] + k * (q[0] - p[0]), p[1] + k * (q[1] - p[1])))
        if t <= 0:
            out.append(q)
    return out


def area(ring):
    return abs(shoelace(ring)) if len(ring) > 2 else 0.0


def box(x0, x1, y0, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def voronoi(p, i, frame):
    """Cell of a point within a frame."""
    cell = frame
    for j in range(len(p)):
        if j != i and len(cell) > 2:
            m = ((p[i][0] + p[j][0]) / 2, (p[i][1] + p[j][1]) / 2)
            cell = clip(cell, m, (p[j][0] - p[i][0], p[j][1] - p[i][1]))
    return cell


def crowd(c, n):
    r = c.rng
    k = r.randrange(4)
    size = r.choice([1.0, 4.0, 10.0])
    if k == 0:
        p = [(r.uniform(-size, size), r.uniform(-size, size))
             for _ in range(n)]
    elif k == 1:             # wide
        p = [(r.uniform(0, 3 * size), r.uniform(0, size)) for _ in range(n)]
    elif k == 2:             # high
        p = [(r.uniform(-size, 0), r.uniform(-3 * size, size))
             for _ in range(n)]
    else:                    # clusters
        q = [(r.uniform(-size, size), r.uniform(-size, size))
             for _ in range(3)]
        p = []
        for _ in range(n):
            a = r.choice(q)
            p.append((a[0] + r.gauss(0, .3 * size), a[1] +
                      r.gauss(0, .3 * size)))
    if r.random() < .3:
        o = (r.uniform(-60, 60), r.uniform(-60, 60))
        p = [(x + o[0], y + o[1]) for x, y in p]
    for i in range(n):
        for j in range(i):
            if dist(p[i], p[j]) < .01 * size:
                c.skip('too close')
    ext = max(max(q[k] for q in p) - min(q[k] for q in p) for k in (0, 1))
    cell = ext / r.uniform(.8, 7)
    cell = r.choice([cell, cell, round(cell, 1) or .1])
    return p, cell


def near_border(p, cell):
    return any(abs(v / cell - round(v / cell)) < 1e-9 for q in p for v in q)


def index(p, cell):
    return [(math.floor(x / cell), math.floor(y / cell)) for x, y in p]


def frame_of(idx):
    i0, j0 = min(i for i, _ in idx), min(j for _, j in idx)
    return i0, j0, max(i for i, _ in idx) - i0 + 1, \
        max(j for _, j in idx) - j0 + 1


@section('classical', quick=1500, thorough=60000)
def classical(c):
    r = c.rng
    n = r.choice([1, 2, 5, 20, 100]) if r.random() < .98 else 900
    p, cell = crowd(c, n) if n < 50 else (
        [(r.gauss(0, 3), r.gauss(1, 2)) for _ in range(n)],
        r.uniform(.3, 4))
    if n == 1 or r.random() < .1:
        cell = r.choice([.5, 1.0, 3.0])
    if r.random() < .2:      # on corners of cells
        cell = r.choice([1.0, .5, .25])
        p = [(cell * math.floor(x / cell), cell * math.floor(y / cell))
             for x, y in p]
    elif near_border(p, cell):
        c.skip('border')
    P = np.array(p)
    got = c.call('classical', D.density_classical, P, cell)
    c.check(np.array_equal(P, np.array(p)), 'classical:input')
    idx = index(p, cell)
    i0, j0, nx, ny = frame_of(idx)
    want = np.zeros((nx, ny))
    for i, j in idx:
        want[i - i0, j - j0] += 1
    c.equal(tuple(np.shape(got)), (nx, ny), 'classical:shape', 'cell', cell)
    c.close(got, want / cell ** 2, 'classical:cell', rtol=1e-9,
            detail=('cell size', cell, 'points', p[:10]))
    c.close(float(np.sum(got)) * cell ** 2, n, 'classical:total')
    c.count('agents', n)
    c.state('shape', nx, ny)
    if nx != ny and nx * ny > 2:
        c.nontrivial(n, nx, ny, p[0])


@section('share', quick=80, thorough=2500, weight=2.0)
def share(c):
    """One agent per agent is spread over its Voronoi cell."""
    r = c.rng
    n = r.choice([3, 4, 6, 12, 20])
    p, cell = crowd(c, n)
    xs, ys = [q[0] for q in p], [q[1] for q in p]
    frame = box(min(xs), max(xs), min(ys), max(ys))
    if min(max(xs) - min(xs), max(ys) - min(ys)) < .02 * cell:
        c.skip('flat')
    if near_border([(min(xs), min(ys)), (max(xs), max(ys))], cell):
        c.skip('border')
    P = np.array(p)
    c.note('points', p, 'cell', cell)
    got = c.call('share', D.density_voronoi_1, P, cell)
    c.check(np.array_equal(P, np.array(p)), 'share:input')
    i0, j0, nx, ny = frame_of(index(p, cell))
    c.equal(tuple(np.shape(got)), (nx, ny), 'share:shape', 'cell', cell)
    want = np.zeros((nx, ny))
    for k in range(n):
        v = voronoi(p, k, frame)
        a = area(v)
        if a < 1e-3 * area(frame) / n:
            c.skip('sliver')
        for i in range(nx):
            col = clip(clip(v, ((i0 + i) * cell, 0.0), (-1.0, 0.0)),
                       ((i0 + i + 1) * cell, 0.0), (1.0, 0.0))
            if len(col) < 3:
                continue
            for j in range(ny):
                q = clip(clip(col, (0.0, (j0 + j) * cell), (0.0, -1.0)),
                         (0.0, (j0 + j + 1) * cell), (0.0, 1.0))
                want[i, j] += area(q) / a
    c.close(float(np.sum(got)) * cell ** 2, n, 'share:total', rtol=1e-4)
    c.close(np.array(got) * cell ** 2, want, 'share:cell', rtol=1e-3,
            atol=1e-3, detail=('cell size', cell))
    c.count('agents', n)
    c.count('cells', nx * ny)
    if nx != ny:
        c.nontrivial(n, nx, ny, p[0])


@section('mean', quick=400, thorough=15000)
def mean(c):
    """Agents in a cell per summed area of their own Voronoi cells."""
    r = c.rng
    n = r.choice([3, 5, 12, 25])
    p, cell = crowd(c, n)
    if near_border(p, cell):
        c.skip('border')
    P = np.array(p)
    c.note('points', p, 'cell', cell)
    got = c.call('mean', D.density_voronoi_2, P, cell)
    c.check(np.array_equal(P, np.array(p)), 'mean:input')
    idx = index(p, cell)
    i0, j0, nx, ny = frame_of(idx)
    c.equal(tuple(np.shape(got)), (nx, ny), 'mean:shape', 'cell', cell)
    # cells that are bounded do not depend on the size of the frame
    x0, y0 = sum(q[0] for q in p) / n, sum(q[1] for q in p) / n
    ext = max(max(abs(q[0] - x0), abs(q[1] - y0)) for q in p)
    big, bigger = (box(x0 - s, x0 + s, y0 - s, y0 + s)
                   for s in (1e3 * ext, 2e3 * ext))
    areas = []
    for k in range(n):
        a, b = area(voronoi(p, k, big)), area(voronoi(p, k, bigger))
        areas.append(a if abs(a - b) < 1e-9 * a else None)
    bounded = 0
    cells = {}
    for k, ij in enumerate(idx):
        cells.setdefault(ij, []).append(k)
    for i in range(nx):
        for j in range(ny):
            ks = cells.get((i0 + i, j0 + j), [])
            g = float(got[i, j])
            if not ks:
                c.equal(g, 0.0, 'mean:empty')
                continue
            if any(areas[k] is None for k in ks):
                # the share of the unbounded cells is a convention
                low = sum(areas[k] for k in ks if areas[k] is not None)
                c.check(0 < g and (low == 0 or g <= len(ks) / low *
                                   (1 + 1e-6)), 'mean:open', g, len(ks), low)
                c.count('cells with open areas')
                continue
            c.close(g, len(ks) / sum(areas[k] for k in ks), 'mean:cell',
                    rtol=1e-6, detail=('cell', (i, j), 'agents', ks))
            bounded += 1
            c.count('cells with closed areas')
    if bounded and nx != ny:
        c.nontrivial(n, nx, ny, bounded, p[0])
