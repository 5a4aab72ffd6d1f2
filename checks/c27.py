"""Random domains (anywhere in the plane, step dividing the size or not) with
walls, paths, blocks and stars as obstacles and lines or areas as targets.
Monitors: the coordinates of the cell of every probed point (on nodes, next to
nodes, anywhere, also outside), raster of drawn shapes against exact distances
(shapes drawn over earlier ones, holes), distances of every cell against an
independent search with 32 moves over free cells, reachability of every cell,
unit directions against the steepest approach, and walks along the direction
map from every part of the domain to the target. Non-trivial: a scene whose
obstacles lengthen ways, a walk longer than five cells, a cell off the nodes."""
import math

import numpy as np
from shapely.geometry import (GeometryCollection, LineString, MultiLineString,
                              MultiPolygon, Point, Polygon)

from crowddynamics.core.geometry import draw_geom
from crowddynamics.core.steering import quickest_path as Q
from exact import dist
from gridways import boundary_distance, distance_to, inside, segments, ways
from harness import section
from scenes import clearance, make, part, random_point, to_shapely, within

RULE = __doc__


def grid_of(c, step, bounds):
    g = c.call('meshgrid', Q.meshgrid, step, *bounds)
    c.check(len(g.values) == 2, 'grid:values')
    c.equal(tuple(g.values[0].shape), tuple(g.shape), 'grid:shape')
    c.equal(tuple(g.values[1].shape), tuple(g.shape), 'grid:shape')
    return g


@section('grid', quick=800, thorough=15000)
def grid(c):
    r = c.rng
    step = r.choice([.1, .2, .3, .5, 1.0, .01 * r.randint(4, 300),
                     r.uniform(.05, 3)])
    nx, ny = r.randint(1, 40), r.randint(1, 40)
    x0, y0 = r.choice([(0.0, 0.0), (-5.0, -2.5), (.3, -.1),
                       (r.uniform(-100, 100), r.uniform(-100, 100))])
    if r.random() < .5:
        x1, y1 = x0 + nx * step, y0 + ny * step
    else:
        x1, y1 = x0 + r.uniform(1, 40) * step, y0 + r.uniform(1, 40) * step
    c.note('step', step, 'bounds', (x0, y0, x1, y1))
    g = grid_of(c, step, (x0, y0, x1, y1))
    x, y = (np.asarray(v) for v in g.values)
    c.check(x.shape[1] > 1 and x.shape[0] > 1 or min(nx, ny) <= 1,
            'grid:shape', x.shape)
    tol = 1e-9 * (1 + max(abs(x0), abs(x1), abs(y0), abs(y1)))
    # rows share y, columns share x, equal steps from the lower corner
    wx = x0 + step * np.arange(x.shape[1])
    wy = y0 + step * np.arange(x.shape[0])
    c.close(x, np.tile(wx, (x.shape[0], 1)), 'grid:x', atol=tol)
    c.close(y, np.tile(wy[:, None], (1, x.shape[1])), 'grid:y', atol=tol)
    # the bounds are covered, without a needless cell beyond
    for hi, last, mech in ((x1, wx[-1], 'x'), (y1, wy[-1], 'y')):
        c.check(last >= hi - tol, 'grid:covers', mech, last, hi)
        c.check(last < hi + 1.001 * step + tol, 'grid:excess', mech, last, hi)
    c.close(g.step, step, 'grid:step')
    c.close(g.bounds, (x0, y0, x1, y1), 'grid:bounds')
    c.count('nodes', x.size)
    # every point belongs to the cell at or below it
    pts = []
    for _ in range(40):
        k = r.randrange(5)
        i, j = r.randrange(x.shape[1]), r.randrange(x.shape[0])
        p = [wx[i], wy[j]]
        if k == 0:
            p = [p[0] + r.uniform(.01, .99) * step,
                 p[1] + r.uniform(.01, .99) * step]
        elif k == 1:
            p = [r.uniform(x0, x1), r.uniform(y0, y1)]
        elif k == 2:         # anywhere around
            p = [x0 + r.uniform(-3, 60) * step, y0 + r.uniform(-3, 60) * step]
        elif k == 3:         # hardly beside a node
            p = [v + r.choice([-1, 1]) * step * 10 ** r.uniform(-5, -2)
                 for v in p]
        pts.append(p)
    form = r.choice(['array', 'list', 'one'])
    if form == 'one':
        pts = pts[:6]
        got = [np.asarray(c.call('indicer', g.indicer, np.array(p)))
               for p in pts]
    else:
        got = np.asarray(c.call('indicer', g.indicer, np.array(pts)
                                if form == 'array' else pts))
        c.equal(got.shape, (len(pts), 2), 'indicer:shape')
    off = 0
    for p, ij in zip(pts, got):
        for a, lo, k in zip(p, (x0, y0), ij):
            c.check(int(k) == k, 'indicer:integer', k)
            t = (a - lo) / step
            e = 1e-7 * (1 + abs(t))
            c.check(k <= t + e and t - e <= k + 1, 'indicer:cell', 'point', p,
                    'index', list(ij), 'steps from the corner', t)
            off += abs(t - round(t)) > .01
        c.count('points')
    c.nontrivial(form, step, nx, x0, off > 5)


def grids_for(c, s):
    xs = [s.o[0], s.o[0] + s.w]
    return grid_of(c, s.step, (s.o[0], s.o[1], xs[1], s.o[1] + s.h))


@section('draw', quick=500, thorough=5000)
def draw(c):
    r = c.rng
    s = make(c, ntargets=1, nobs=(0, 1), clear=0.0)
    mg = grids_for(c, s)
    shapes = []
    for _ in range(r.randint(1, 4)):
        k = r.choice([('frame',), ('frame',), ('rect',), ('star',), ('line',),
                      ('path',)])
        for _ in range(60):
            p = part(c, s.w, s.h, s.o, .5 * min(s.w, s.h), k)
            if within(p, s.o, s.w, s.h, 0.0):
                shapes.append(p)
                break
    if r.random() < .4 and shapes and shapes[0][0] == 'poly' and shapes[0][2]:
        # an island inside the hole of the frame
        hole = shapes[0][2][0]
        m = [sum(p[i] for p in hole) / 4 for i in (0, 1)]
        isl = ('poly', [(m[0] + .4 * (x - m[0]), m[1] + .4 * (y - m[1]))
                        for x, y in hole], [])
        shapes.insert(r.choice([0, len(shapes)]), isl)
        c.count('islands')
    if not shapes:
        c.skip('no room')
    dtype = r.choice([np.float64, np.bool_])
    if dtype is np.bool_:
        before, values = False, [True] * len(shapes)
    else:
        before = r.choice([-1.0, -1.0, 7.0])
        values = [float(k + 2) for k in range(len(shapes))]
    grid = np.full(mg.shape, before, dtype=dtype)
    together = r.random() < .5
    if together:
        v = values[0]
        geo = GeometryCollection([to_shapely([p]) for p in shapes])
        if r.random() < .3:
            geo = GeometryCollection([Point(s.o), geo])
        values = [v] * len(shapes)
        c.call('draw', draw_geom, geo, grid, mg.indicer, v)
    else:
        for p, v in zip(shapes, values):
            c.call('draw', draw_geom, to_shapely([p]), grid, mg.indicer, v)
    c.note('shapes', shapes, 'values', values, 'together', together)
    X, Y = mg.values
    seen = set()
    far = 2.2 * s.step
    for i in range(mg.shape[0]):
        for j in range(mg.shape[1]):
            # of the node, its cell reaches one step up and right
            q = (float(X[i, j]), float(Y[i, j]))
            want, clearly = before, True
            for p, v in zip(shapes, values):
                d = boundary_distance(q, [p])
                if p[0] == 'poly' and d > far:
                    if inside(q, [p]):
                        want, clearly = v, True
                elif d <= far:
                    clearly = False
            if not clearly:
                continue
            seen.add(want)
            c.check(grid[i, j] == want, 'draw:cell', 'at', q, 'is',
                    grid[i, j], 'expected', want)
            c.count('drawn cells' if want != before else 'free cells')
    # lines are drawn without gaps: every point of a boundary is close to a
    # cell that was painted
    for p, v in list(zip(shapes, values))[-1 if not together else 0:]:
        if p[0] != 'line':
            continue
        for a, b in segments([p]):
            n = max(2, int(dist(a, b) / s.step * 3))
            for t in range(n + 1):
                q = (a[0] + (b[0] - a[0]) * t / n, a[1] + (b[1] - a[1]) * t / n)
                i0 = int(math.floor((q[1] - s.o[1]) / s.step))
                j0 = int(math.floor((q[0] - s.o[0]) / s.step))
                ok = any(grid[i, j] == v
                         for i in range(max(0, i0 - 1),
                                        min(mg.shape[0], i0 + 2))
                         for j in range(max(0, j0 - 1),
                                        min(mg.shape[1], j0 + 2)))
                c.check(ok, 'draw:line', 'nothing drawn at', q, 'of', p)
                c.count('line points')
    c.nontrivial(len(shapes), str(dtype), together, len(seen) > 1,
                 [p[0] for p in shapes])


def blocked_cells(dmap):
    return np.ma.getmaskarray(dmap)


def raster_targets(s, mg, geom):
    """Cells that surely hold the target: (row, column)."""
    out = set()
    X, Y = mg.values
    for i in range(mg.shape[0]):
        for j in range(mg.shape[1]):
            if distance_to((float(X[i, j]), float(Y[i, j])), geom) <= \
                    .5 * s.step:
                out.add((i, j))
    for a, b in segments(geom):
        n = int(dist(a, b) / s.step * 20) + 2
        for t in range(n + 1):
            q = (a[0] + (b[0] - a[0]) * t / n, a[1] + (b[1] - a[1]) * t / n)
            i = int(math.floor((q[1] - s.o[1]) / s.step + 1e-9))
            j = int(math.floor((q[0] - s.o[0]) / s.step + 1e-9))
            if 0 <= i < mg.shape[0] and 0 <= j < mg.shape[1]:
                out.add((i, j))
    return out


def check_distance(c, s, mg, dmap, target, mech):
    """Sizes of the distances against searched ways over the free cells."""
    step = s.step
    mask = blocked_cells(dmap)
    D = np.abs(np.ma.filled(np.ma.asarray(dmap), np.nan))
    src = [q for q in raster_targets(s, mg, target) if not mask[q]]
    if not src:
        c.skip('target is covered')
    way = ways(mg.shape, src, mask.tolist(), step)
    lengthened = 0
    for i in range(mg.shape[0]):
        for j in range(mg.shape[1]):
            if mask[i, j]:
                continue
            d = way.get((i, j))
            if d is None:
                continue     # only a way through a narrow place
            got = float(D[i, j])
            p = (float(mg.values[0][i, j]), float(mg.values[1][i, j]))
            c.check(math.isfinite(got), mech + 'finite', p)
            if d == 0:
                continue
            e = distance_to(p, target)
            c.check(got >= .93 * e - 2.2 * step, mech + 'too-short',
                    'at', p, 'distance', got, 'beeline', e)
            c.check(got <= 1.08 * d + 1.8 * step, mech + 'too-long',
                    'at', p, 'distance', got, 'way', d)
            c.check(got >= .9 * d - 2.2 * step, mech + 'too-short',
                    'at', p, 'distance', got, 'way', d)
            lengthened += d > 1.2 * e + 2 * step
            c.count('distances')
    # zero at the target, and the sign tells the side
    F = np.ma.filled(np.ma.asarray(dmap), np.nan)
    for i in range(mg.shape[0]):
        for j in range(mg.shape[1]):
            if mask[i, j]:
                continue
            p = (float(mg.values[0][i, j]), float(mg.values[1][i, j]))
            d = boundary_distance(p, target)
            if d > 2.3 * step:
                c.check((F[i, j] > 0) == inside(p, target), mech + 'side',
                        'at', p, 'value', F[i, j])
    return lengthened, way


@section('distance', quick=260, thorough=3000, weight=3.0)
def distance(c):
    r = c.rng
    s = make(c, ntargets=r.choice([1, 1, 2]), nobs=(0, 5), clear=3.5)
    mg = grids_for(c, s)
    target = [p for t in s.targets for p in t]
    none = not s.obstacles
    c.note('scene', s.step, (s.o, s.w, s.h), 'targets', target, 'obstacles',
           s.obstacles)
    dmap = c.call('distance_map', Q.distance_map, mg, to_shapely(target),
                  None if none else to_shapely(s.obstacles))
    c.equal(tuple(dmap.shape), tuple(mg.shape), 'distance:shape')
    mask = blocked_cells(dmap)
    # cells well inside of obstacles are masked, cells off obstacles are not,
    # unless they cannot be reached
    lengthened, way = check_distance(c, s, mg, dmap, target, 'distance:')
    for i in range(mg.shape[0]):
        for j in range(mg.shape[1]):
            p = (float(mg.values[0][i, j]), float(mg.values[1][i, j]))
            if none:
                c.check(not mask[i, j], 'distance:masked', p)
                continue
            d = boundary_distance(p, s.obstacles)
            if d <= 2.2 * s.step:
                continue
            if inside(p, s.obstacles):
                c.check(mask[i, j], 'distance:not-masked', p)
                c.count('obstacle cells')
            elif (i, j) in way:
                c.check(not mask[i, j], 'distance:masked', p)
    # no way through an obstacle: reachable cells that are free are reached
    if not none:
        free = [[boundary_distance((float(mg.values[0][i, j]),
                                    float(mg.values[1][i, j])),
                                   s.obstacles) <= 2.2 * s.step or
                 inside((float(mg.values[0][i, j]),
                         float(mg.values[1][i, j])), s.obstacles)
                 for j in range(mg.shape[1])] for i in range(mg.shape[0])]
        src = [q for q in raster_targets(s, mg, target) if not free[q[0]][q[1]]]
        sure = ways(mg.shape, src, free, s.step)
        for q in sure:
            c.check(not mask[q], 'distance:unreached', 'cell', q)
            c.count('reachable cells')
    c.count('lengthened', lengthened)
    if lengthened > 3 or none:
        c.nontrivial(len(s.obstacles), len(s.targets), lengthened, s.step)


@section('direction', quick=400, thorough=4000)
def direction(c):
    """Directions against the distance map they come from."""
    r = c.rng
    synthetic = r.random() < .4
    if synthetic:
        n, m = r.randint(3, 14), r.randint(3, 14)
        k = r.randrange(3)
        y, x = np.mgrid[0:n, 0:m].astype(float)
        a = r.uniform(-3, 3)
        if k == 0:
            d = -np.hypot(x - r.uniform(0, m), y - r.uniform(0, n))
        elif k == 1:
            d = np.cos(a) * x + np.sin(a) * y
        else:
            d = c.np.uniform(-5, 5, (n, m))
        if r.random() < .4:
            d[1:3, 1:3] = d[1, 1]
        dmap = np.ma.MaskedArray(d, c.np.rand(n, m) < .15) \
            if r.random() < .5 else d
        keep = np.array(np.ma.filled(dmap, 0.0))
    else:
        s = make(c, nobs=(0, 4), clear=3.5, cells=(12, 28))
        mg = grids_for(c, s)
        dmap = Q.distance_map(mg, to_shapely(s.targets[0]),
                              to_shapely(s.obstacles) if s.obstacles else None)
        keep = np.array(np.ma.filled(dmap, 0.0))
    out = c.call('direction_map', Q.direction_map, dmap)
    c.equal(len(out), 2, 'direction:two')
    ex, ey = out
    c.equal(tuple(np.shape(ex)), tuple(dmap.shape), 'direction:shape')
    c.equal(tuple(np.shape(ey)), tuple(dmap.shape), 'direction:shape')
    c.check(np.array_equal(keep, np.ma.filled(dmap, 0.0)), 'direction:input')
    mask = np.ma.getmaskarray(dmap)
    D = np.array(np.ma.filled(dmap, np.nan), dtype=float)
    n, m = D.shape
    masked = np.ma.getmaskarray(np.ma.asarray(ex)) | \
        np.ma.getmaskarray(np.ma.asarray(ey))
    ex = np.array(np.ma.filled(np.ma.asarray(ex), np.nan), dtype=float)
    ey = np.array(np.ma.filled(np.ma.asarray(ey), np.nan), dtype=float)
    some = 0
    for i in range(n):
        for j in range(m):
            a, b = max(0, i - 1), min(n - 1, i + 1)
            e, f = max(0, j - 1), min(m - 1, j + 1)
            if mask[i, j] or mask[a, j] or mask[b, j] or mask[i, e] or \
                    mask[i, f]:
                continue
            gx = (D[i, f] - D[i, e]) / (f - e)
            gy = (D[b, j] - D[a, j]) / (b - a)
            g = math.hypot(gx, gy)
            if g < 1e-9 * (1 + abs(D[i, j])):
                if g == 0:
                    c.check(not (math.isfinite(ex[i, j]) and
                                 math.hypot(ex[i, j], ey[i, j]) > 1e-9),
                            'direction:undefined', (i, j), ex[i, j], ey[i, j])
                continue
            c.check(not masked[i, j], 'direction:masked', (i, j))
            c.close((ex[i, j], ey[i, j]), (gx / g, gy / g),
                    'direction:steepest', rtol=1e-6, atol=1e-6,
                    detail='cell %d %d' % (i, j))
            some += 1
            c.count('directions')
    if some:
        c.nontrivial(synthetic, n, m, some)


def prepared(c, none=False, clear=5.0):
    r = c.rng
    step = r.choice([.1, .25, .5, r.uniform(.05, .6)])
    radius = step * r.choice([3.0, 5.0, r.uniform(2.5, 5), 0.0])
    s = make(c, step=step, nobs=(0, 0) if none else (1, 4), clear=clear,
             gap=radius, cells=(22, 42), ntargets=r.choice([1, 1, 1, 2]))
    s.radius = radius
    if not none and not s.obstacles:
        c.skip('no room for obstacles')
    s.mg = grids_for(c, s)
    s.target = [p for t in s.targets for p in t]
    c.note('step', step, 'radius', radius, 'domain', s.ring, 'target',
           s.target, 'obstacles', s.obstacles)
    return s


def at(mg, maps, p):
    """Direction of the cell of a point."""
    j, i = (int(v) for v in np.asarray(mg.indicer(np.array(p))))
    if not (0 <= i < mg.shape[0] and 0 <= j < mg.shape[1]):
        return None
    return float(np.ma.filled(np.ma.asarray(maps[0]), np.nan)[i, j]), \
        float(np.ma.filled(np.ma.asarray(maps[1]), np.nan)[i, j])


def narrow(mask, keep, k=4):
    """Cells that belong to no free block of k x k cells."""
    n, m = mask.shape
    out = np.ones((n, m), dtype=bool)
    for i in range(n - k + 1):
        for j in range(m - k + 1):
            if not mask[i:i + k, j:j + k].any():
                out[i:i + k, j:j + k] = False
    for i, j in keep:
        for a in range(max(0, i - 2), min(n, i + 3)):
            for b in range(max(0, j - 2), min(m, j + 3)):
                out[a, b] = mask[a, b]
    return out.tolist()


def distance_here(mg, dmap, p):
    j, i = (int(v) for v in np.asarray(mg.indicer(np.array(p))))
    v = abs(float(np.ma.filled(np.ma.asarray(dmap), np.inf)[i, j]))
    return v if v < 1e100 else math.inf


def keeps_off(c, s, mask, src):
    """Nobody is led closer to obstacles than the radius asked for, and
    everything farther away from them is open."""
    X, Y = s.mg.values
    n, m = s.mg.shape
    near = np.zeros((n, m), dtype=bool)
    ring = [('poly', s.ring, [])]
    for i in range(n):
        for j in range(m):
            p = (float(X[i, j]), float(Y[i, j]))
            d = distance_to(p, s.obstacles) if s.obstacles else math.inf
            near[i, j] = d < s.radius + 2.1 * s.step
            if s.radius > 0 and d < s.radius - 1.6 * s.step and \
                    inside(p, ring) and boundary_distance(p, ring) > \
                    1.6 * s.step:
                c.check(mask[i, j], 'path:within-radius', 'node', p, 'is', d,
                        'from obstacles, radius', s.radius)
                c.count('nodes within the radius')
    for q in ways(s.mg.shape, [q for q in src if not near[q]],
                  narrow(near, [])):
        p = (float(X[q]), float(Y[q]))
        if inside(p, ring) and boundary_distance(p, ring) > 1.1 * s.step:
            c.check(not mask[q], 'path:closed', 'node', p, 'radius', s.radius,
                    'step', s.step)
            c.count('open nodes')


@section('follow', quick=100, thorough=2400, weight=3.0)
def follow(c):
    r = c.rng
    s = prepared(c, none=r.random() < .2)
    obs = to_shapely(s.obstacles) if s.obstacles else None
    before = obs.wkt if obs is not None and hasattr(obs, 'wkt') else None
    maps, dmap = c.call('shortest_path', Q.shortest_path, s.mg, s.domain,
                        to_shapely(s.target), obs, s.radius)
    if before is not None:
        c.equal(obs.wkt, before, 'path:input')
    c.equal(len(maps), 2, 'path:two')
    ex = np.ma.filled(np.ma.asarray(maps[0]), np.nan)
    ey = np.ma.filled(np.ma.asarray(maps[1]), np.nan)
    c.equal(tuple(ex.shape), tuple(s.mg.shape), 'path:shape')
    X, Y = s.mg.values
    # unit vectors wherever there is a direction
    l = np.hypot(ex, ey)
    bad = np.isfinite(l) & (np.abs(l - 1) > 1e-6)
    c.check(not bad.any(), 'path:unit', l[bad][:3])
    # every free cell from which the target can be reached has a direction
    mask = np.ma.getmaskarray(dmap)
    src = [q for q in raster_targets(s, s.mg, s.target) if not mask[q]]
    keeps_off(c, s, mask, src)
    way = ways(s.mg.shape, src, mask.tolist(), s.step)
    # walks from where the shortest way keeps off narrow places
    tight = narrow(mask, src)
    wide = ways(s.mg.shape, src, tight, s.step)
    tight = [(i, j) for i in range(len(tight)) for j in range(len(tight[0]))
             if tight[i][j] and (i, j) in way]
    starts = []
    cells = sorted(q for q, d in way.items()
                   if d > 5 * s.step and
                   wide.get(q, math.inf) <= d + .5 * s.step)
    r.shuffle(cells)
    for i, j in cells:
        p = (float(X[i, j]) + r.uniform(0, .99) * s.step,
             float(Y[i, j]) + r.uniform(0, .99) * s.step)
        if not inside(p, [('poly', s.ring, [])]) or \
                boundary_distance(p, [('poly', s.ring, [])]) < 1.5 * s.step:
            continue
        if s.obstacles and distance_to(p, s.obstacles) < \
                s.radius + 1.5 * s.step:
            continue
        if tight:
            here = ways(s.mg.shape, [(i, j)], mask.tolist(), s.step)
            if min(here.get(q, math.inf) + way[q] for q in tight) < \
                    way[i, j] + 4 * s.step:
                c.count('starts next to narrow ways')
                continue
        starts.append((p, way[i, j]))
        if len(starts) == 6:
            break
    arrived = 0
    for start, length in starts:
        p, n = start, 0
        best, stuck, pushes = math.inf, 0, 0
        while distance_to(p, s.target) > 2.5 * s.step:
            e = at(s.mg, (ex, ey), p)
            c.check(e is not None, 'path:left-the-grid', 'from', start, 'at',
                    p)
            d = distance_here(s.mg, dmap, p)
            if d < best - .2 * s.step:
                best, stuck = d, 0
            else:
                stuck += 1
            if stuck > 25 and pushes < 20:
                # on a ridge between two ways: a push decides
                c.count('pushes')
                e = (2 * r.uniform(-1, 1), 2 * r.uniform(-1, 1))
                if s.obstacles and distance_to(
                        (p[0] + .4 * s.step * e[0], p[1] + .4 * s.step * e[1]),
                        s.obstacles) < s.radius + .5 * s.step:
                    e = (0.0, 0.0)      # that would be into the margin
                stuck, pushes = 15, pushes + 1
                n -= 10
            if not (math.isfinite(e[0]) and math.isfinite(e[1])):
                # a ridge between two ways: a tiny push decides
                c.count('ridges')
                e = (r.uniform(-1, 1), r.uniform(-1, 1))
            p = (p[0] + .4 * s.step * e[0], p[1] + .4 * s.step * e[1])
            # less than a step beyond the border is the border
            p = tuple(lo if lo - s.step < v < lo else
                      lo + z if lo + z < v < lo + z + s.step else v
                      for v, lo, z in zip(p, s.o, (s.w, s.h)))
            n += 1
            if s.obstacles:
                if s.radius == 0 and \
                        distance_to(p, s.obstacles) < 2.2 * s.step:
                    # without a margin, the raster of the obstacle decides
                    c.count('grazed')
                    break
                c.check(distance_to(p, s.obstacles) > 1e-9 and
                        not inside(p, s.obstacles), 'path:into-obstacle',
                        'from', start, 'at', p)
            if n * .4 * s.step > 2.0 * length + 12 * s.step:
                c.fail('path:does-not-arrive', 'from %r at %r after %d steps, '
                       'way %r' % (start, p, n, length))
        arrived += 1
        c.count('walks')
        c.count('walked steps', n)
    if arrived:
        c.nontrivial(len(s.obstacles), arrived, s.step, s.radius)


@section('missing', quick=70, thorough=1500, weight=1.5)
def missing(c):
    """Cells between obstacles and their surroundings get a direction that
    the closest free cells have."""
    r = c.rng
    s = prepared(c)
    obs = to_shapely(s.obstacles)
    maps, dmap = c.call('shortest_path', Q.shortest_path, s.mg, s.domain,
                        to_shapely(s.target), obs, s.radius)
    raw = Q.direction_map(dmap)
    rx = np.ma.filled(np.ma.asarray(raw[0]), np.nan)
    ry = np.ma.filled(np.ma.asarray(raw[1]), np.nan)
    have = ~np.ma.getmaskarray(np.ma.asarray(raw[0]))
    ex = np.ma.filled(np.ma.asarray(maps[0]), np.nan)
    ey = np.ma.filled(np.ma.asarray(maps[1]), np.nan)
    em = np.ma.getmaskarray(np.ma.asarray(maps[0]))
    X, Y = s.mg.values
    own = [(i, j) for i in range(s.mg.shape[0]) for j in range(s.mg.shape[1])
           if have[i, j]]
    filled = 0
    for i in range(s.mg.shape[0]):
        for j in range(s.mg.shape[1]):
            p = (float(X[i, j]), float(Y[i, j]))
            if have[i, j]:
                if math.isfinite(rx[i, j]) and \
                        boundary_distance(p, s.obstacles) > 2.2 * s.step and \
                        not inside(p, s.obstacles):
                    c.close((ex[i, j], ey[i, j]), (rx[i, j], ry[i, j]),
                            'fill:changed', atol=1e-9, detail=p)
                continue
            if boundary_distance(p, s.obstacles) <= 2.2 * s.step or \
                    inside(p, s.obstacles):
                continue
            c.check(not em[i, j], 'fill:masked', 'at', p)
            if filled < 60 and r.random() < .2:
                d = [((a - i) ** 2 + (b - j) ** 2, a, b) for a, b in own]
                k = min(d)[0]
                near = [(a, b) for q, a, b in d if q <= k]
                got = (ex[i, j], ey[i, j])
                ok = any(abs(got[0] - rx[q]) < 1e-9 and
                         abs(got[1] - ry[q]) < 1e-9 or
                         not math.isfinite(rx[q]) for q in near)
                c.check(ok, 'fill:nearest', 'at', p, 'is', got, 'near',
                        [(rx[q], ry[q]) for q in near])
                filled += 1
                c.count('filled cells')
    if filled:
        c.nontrivial(filled, len(s.obstacles))
