"""Independent rasters, way lengths and walks on regular grids."""
import heapq
import math

from exact import point_segment


def nodes(lo, step, hi):
    """Number of grid nodes that are needed to reach hi from lo."""
    return int(math.ceil((hi - lo) / step - 1e-9)) + 1


def segments(geom):
    """Segments of the boundary of a geometry given as plain parts:
    ('line', pts) or ('poly', shell, holes)."""
    out = []
    for part in geom:
        if part[0] == 'line':
            out += list(zip(part[1][:-1], part[1][1:]))
        else:
            for ring in [part[1]] + list(part[2]):
                ring = list(ring)
                out += list(zip(ring, ring[1:] + ring[:1]))
    return out


def boundary_distance(p, geom):
    return min(point_segment(p, a, b) for a, b in segments(geom))


def even_odd(p, ring):
    inside = False
    n = len(ring)
    for i in range(n):
        (x0, y0), (x1, y1) = ring[i - 1], ring[i]
        if (y0 > p[1]) != (y1 > p[1]):
            if p[0] < x0 + (p[1] - y0) * (x1 - x0) / (y1 - y0):
                inside = not inside
    return inside


def inside(p, geom):
    for part in geom:
        if part[0] == 'poly' and even_odd(p, part[1]) and \
                not any(even_odd(p, h) for h in part[2]):
            return True
    return False


def distance_to(p, geom):
    """Distance to a geometry (zero inside of polygons)."""
    return 0.0 if inside(p, geom) else boundary_distance(p, geom)


MOVES = [(di, dj, math.hypot(di, dj))
         for di in range(-3, 4) for dj in range(-3, 4)
         if (di or dj) and math.gcd(abs(di), abs(dj)) == 1]


def between(di, dj):
    """Nodes touched by a move, apart from its ends (both neighbours where the
    move passes between two nodes)."""
    out = set()
    n = max(abs(di), abs(dj))
    for k in range(1, 2 * n):
        t = k / (2.0 * n)
        x, y = di * t, dj * t
        for fx in {math.floor(x), math.ceil(x)}:
            for fy in {math.floor(y), math.ceil(y)}:
                out.add((int(fx), int(fy)))
    out.discard((0, 0))
    out.discard((di, dj))
    return sorted(out)


STEPS = [(di, dj, w, between(di, dj)) for di, dj, w in MOVES]


def ways(shape, sources, blocked, step=1.0):
    """Lengths of shortest ways to the sources over free nodes."""
    n, m = shape
    dist = {}
    heap = [(0.0, s) for s in sources]
    heapq.heapify(heap)
    best = {s: 0.0 for s in sources}
    while heap:
        d, (i, j) = heapq.heappop(heap)
        if (i, j) in dist:
            continue
        dist[i, j] = d
        for di, dj, w, mid in STEPS:
            a, b = i + di, j + dj
            if not (0 <= a < n and 0 <= b < m) or (a, b) in dist or \
                    blocked[a][b]:
                continue
            if any(not (0 <= i + x < n and 0 <= j + y < m) or
                   blocked[i + x][j + y] for x, y in mid):
                continue
            q = d + w * step
            if q < best.get((a, b), math.inf):
                best[a, b] = q
                heapq.heappush(heap, (q, (a, b)))
    return dist
