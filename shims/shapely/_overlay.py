"""Exact planar overlay on a fine integer grid.

Coordinates are snapped to a grid of 2**-20; segments are noded on the grid and
every noded edge is classified by exact winding numbers, so the boolean
operations are topologically exact on the snapped input. Vertices that come from
the input keep their original floating point coordinates.
"""
import math

import numpy as np

SCALE = float(2 ** 20)
LIMIT = 2 ** 29


class OverlayError(NotImplementedError):
    pass


class Grid(object):
    """Snapping with memory of the original coordinates."""

    def __init__(self, limit=None):
        self.original = {}
        self.limit = limit

    def snap(self, p):
        k = (int(round(p[0] * SCALE)), int(round(p[1] * SCALE)))
        if self.limit and max(abs(k[0]), abs(k[1])) > self.limit:
            raise OverlayError('coordinates out of range of the overlay')
        self.original.setdefault(k, (float(p[0]), float(p[1])))
        return k

    def point(self, k):
        v = self.original.get(k)
        return v if v is not None else (k[0] / SCALE, k[1] / SCALE)


def _split_all(segs):
    """Node integer segments. segs: dict {(a, b): payload}, payload addable."""
    for _ in range(2000):
        keys = list(segs)
        if not keys:
            return segs
        order = sorted(range(len(keys)),
                       key=lambda n: min(keys[n][0][0], keys[n][1][0]))
        lo = [min(keys[n][0][0], keys[n][1][0]) for n in order]
        hi = [max(keys[n][0][0], keys[n][1][0]) for n in order]
        ylo = [min(keys[n][0][1], keys[n][1][1]) for n in order]
        yhi = [max(keys[n][0][1], keys[n][1][1]) for n in order]
        cuts = {}
        total = len(order)
        for n in range(total):
            pa = keys[order[n]]
            (ax0, ay0), (ax1, ay1) = pa
            dx, dy = ax1 - ax0, ay1 - ay0
            end, top, low = hi[n], yhi[n], ylo[n]
            for k in range(n + 1, total):
                if lo[k] > end:
                    break
                if ylo[k] > top or yhi[k] < low:
                    continue
                pb = keys[order[k]]
                (bx0, by0), (bx1, by1) = pb
                # side of the ends of one with respect to the other
                v0 = dx * (by0 - ay0) - dy * (bx0 - ax0)
                v1 = dx * (by1 - ay0) - dy * (bx1 - ax0)
                if (v0 > 0 and v1 > 0) or (v0 < 0 and v1 < 0):
                    continue
                ex, ey = bx1 - bx0, by1 - by0
                w0 = ex * (ay0 - by0) - ey * (ax0 - bx0)
                w1 = ex * (ay1 - by0) - ey * (ax1 - bx0)
                if (w0 > 0 and w1 > 0) or (w0 < 0 and w1 < 0):
                    continue
                # endpoints lying on the other segment
                if v0 == 0 and _between(pb[0], pa):
                    cuts.setdefault(pa, set()).add(pb[0])
                if v1 == 0 and _between(pb[1], pa):
                    cuts.setdefault(pa, set()).add(pb[1])
                if w0 == 0 and _between(pa[0], pb):
                    cuts.setdefault(pb, set()).add(pa[0])
                if w1 == 0 and _between(pa[1], pb):
                    cuts.setdefault(pb, set()).add(pa[1])
                if v0 and v1 and w0 and w1:
                    # proper crossing at pb[0] + v0 / (v0 - v1) * (pb1 - pb0)
                    den = v0 - v1
                    x = bx0 + _rdiv(v0 * ex, den)
                    y = by0 + _rdiv(v0 * ey, den)
                    cuts.setdefault(pa, set()).add((x, y))
                    cuts.setdefault(pb, set()).add((x, y))
        new = {}
        changed = False
        for key in keys:
            payload = segs[key]
            pts = cuts.get(key)
            if pts:
                pts = pts - {key[0], key[1]}
            if not pts:
                _add(new, key, payload)
                continue
            changed = True
            (x0, y0), (x1, y1) = key
            dx, dy = x1 - x0, y1 - y0
            chain = sorted(pts, key=lambda p: (p[0] - x0) * dx +
                                              (p[1] - y0) * dy)
            prev = key[0]
            for p in chain + [key[1]]:
                if p != prev:
                    _add(new, (prev, p), payload)
                prev = p
        segs = new
        if not changed:
            return segs
    raise OverlayError('noding did not converge')


def _rdiv(a, b):
    """a / b rounded to the nearest integer, exactly."""
    if b < 0:
        a, b = -a, -b
    return (2 * a + b) // (2 * b)


def _between(p, s):
    (x0, y0), (x1, y1) = s
    return p != s[0] and p != s[1] and min(x0, x1) <= p[0] <= max(x0, x1) \
        and min(y0, y1) <= p[1] <= max(y0, y1)


def _add(segs, key, payload):
    """Store with canonical direction; payload is a tuple of signed numbers."""
    a, b = key
    if a == b:
        return
    if a > b:
        key = (b, a)
        payload = tuple(-p for p in payload)
    old = segs.get(key)
    if old is not None:
        payload = tuple(x + y for x, y in zip(old, payload))
    segs[key] = payload


def polygon_overlay(rings_per_operand, inside):
    """Boolean combination of areas.

    Args:
        rings_per_operand: list of lists of rings (sequences of points); rings
            wind counter clockwise around the area they add.
        inside: function of the tuple of winding numbers (arrays) -> bool array

    Returns:
        list of (shell, [holes]) in floating point coordinates.
    """
    grid = Grid()
    k = len(rings_per_operand)
    segs = {}
    for o, rings in enumerate(rings_per_operand):
        unit = tuple(1 if i == o else 0 for i in range(k))
        for ring in rings:
            pts = [grid.snap(p) for p in ring]
            if pts and pts[0] == pts[-1]:
                pts.pop()
            for a, b in zip(pts, pts[1:] + pts[:1]):
                _add(segs, (a, b), unit)
    segs = _split_all(segs)
    keys = [s for s in segs if any(segs[s])]
    if not keys:
        return []
    mult = np.array([segs[s] for s in keys], dtype=np.int64)
    left, right = _windings(keys, mult)
    il = inside(tuple(left[:, i] for i in range(k)))
    ir = inside(tuple(right[:, i] for i in range(k)))
    edges = []
    for n in np.nonzero(il != ir)[0]:
        a, b = keys[n]
        edges.append((a, b) if il[n] else (b, a))
    return _assemble(edges, grid)


def _windings(keys, mult):
    """Winding numbers just left and right of the middle of every edge."""
    n, k = len(keys), mult.shape[1]
    edges = [(2 * a, 2 * b, 2 * u, 2 * v) for (a, b), (u, v) in keys]
    mult = mult.tolist()
    left = np.zeros((n, k), dtype=np.int64)
    right = np.zeros((n, k), dtype=np.int64)
    for e in range(n):
        x0, y0, x1, y1 = edges[e]
        mx, my = (x0 + x1) // 2, (y0 + y1) // 2
        w = [0] * k
        if y0 != y1:
            # ray towards +x
            for i in range(n):
                u0, v0, u1, v1 = edges[i]
                if i == e:
                    continue
                # the point is left of an upward edge: the edge is to its east
                if v0 <= my < v1:
                    if (u1 - u0) * (my - v0) > (v1 - v0) * (mx - u0):
                        for q in range(k):
                            w[q] += mult[i][q]
                elif v1 <= my < v0:
                    if (u1 - u0) * (my - v0) < (v1 - v0) * (mx - u0):
                        for q in range(k):
                            w[q] -= mult[i][q]
            if y1 > y0:      # up: east is right
                right[e] = w
                left[e] = [a + b for a, b in zip(w, mult[e])]
            else:
                left[e] = w
                right[e] = [a - b for a, b in zip(w, mult[e])]
        else:
            # horizontal edge: ray towards +y
            for i in range(n):
                u0, v0, u1, v1 = edges[i]
                if i == e:
                    continue
                # the edge runs above the point; moving north to south across
                # a forward (+x) edge loses its multiplicity
                if u0 <= mx < u1:
                    if (u1 - u0) * (my - v0) < (v1 - v0) * (mx - u0):
                        for q in range(k):
                            w[q] -= mult[i][q]
                elif u1 <= mx < u0:
                    if (u1 - u0) * (my - v0) > (v1 - v0) * (mx - u0):
                        for q in range(k):
                            w[q] += mult[i][q]
            if x1 > x0:      # +x: north is left
                left[e] = w
                right[e] = [a - b for a, b in zip(w, mult[e])]
            else:
                right[e] = w
                left[e] = [a + b for a, b in zip(w, mult[e])]
    return left, right


def _ang(a, b):
    return math.atan2(b[1] - a[1], b[0] - a[0])


def _area2(ring):
    s = 0
    for (ax, ay), (bx, by) in zip(ring, ring[1:] + ring[:1]):
        s += ax * by - ay * bx
    return s


def _assemble(edges, grid):
    out = {}
    for a, b in edges:
        out.setdefault(a, []).append(b)
    rings = []
    unused = {a: list(bs) for a, bs in out.items()}
    for start in sorted(unused):
        while unused[start]:
            path = [start]
            cur, nxt = start, unused[start].pop()
            while nxt != start:
                path.append(nxt)
                prev, cur = cur, nxt
                cands = unused.get(cur)
                if not cands:
                    raise OverlayError('open ring')
                if len(cands) == 1:
                    nxt = cands.pop()
                else:
                    back = _ang(cur, prev)
                    # first edge clockwise from the way back
                    best = min(cands, key=lambda c: (
                        (back - _ang(cur, c)) % (2 * math.pi)) or 2 * math.pi)
                    cands.remove(best)
                    nxt = best
                if len(path) > 10 * len(edges) + 10:
                    raise OverlayError('ring does not close')
            # split at repeated vertices into simple rings
            stack, pos = [], {}
            for p in path:
                if p in pos:
                    i = pos[p]
                    loop = stack[i:]
                    for q in loop[1:]:
                        del pos[q]
                    del stack[i + 1:]
                    if len(loop) >= 3:
                        rings.append(loop)
                else:
                    pos[p] = len(stack)
                    stack.append(p)
            if len(stack) >= 3:
                rings.append(stack)
    shells, holes = [], []
    for r in rings:
        a = _area2(r)
        if a > 0:
            shells.append((a, r))
        elif a < 0:
            holes.append(r)
    shells.sort(key=lambda t: t[0])
    res = [(_simplify(r), []) for _, r in shells]
    raw = [r for _, r in shells]
    for h in holes:
        hs = set(h)
        for i, r in enumerate(raw):
            # a vertex of the hole that is not on the shell, else mid points
            p = next((q for q in h if q not in set(r)), None)
            if p is None:
                p = None
                for (ax, ay), (bx, by) in zip(h, h[1:] + h[:1]):
                    q = ((ax + bx) / 2.0, (ay + by) / 2.0)
                    p = q
                    break
            if _inside_ring(p, r):
                res[i][1].append(_simplify(h))
                break
    return [([grid.point(p) for p in s], [[grid.point(p) for p in h]
                                          for h in hs])
            for s, hs in res]


def _simplify(ring):
    """Drop vertices lying exactly on a straight line."""
    out = []
    n = len(ring)
    for i in range(n):
        a, b, c = ring[i - 1], ring[i], ring[(i + 1) % n]
        if (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]):
            out.append(b)
    return out if len(out) >= 3 else ring


def _inside_ring(p, ring):
    x, y = p
    inside = False
    n = len(ring)
    for i in range(n):
        x0, y0 = ring[i - 1]
        x1, y1 = ring[i]
        if (y0 > y) != (y1 > y):
            # exact for integers
            c = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
            if (c > 0) == (y1 > y0):
                inside = not inside
    return inside


def line_overlay(lines_a, lines_b, rings_a, rings_b, keep):
    """Noded lines of a and b filtered by ``keep``.

    keep(in_a_line, in_b_line, wind_a, wind_b, on_a_boundary, on_b_boundary)
    -> bool

    Returns list of point lists (chains between nodes).
    """
    grid = Grid(LIMIT)
    segs = {}
    # payload: (#a lines, #b lines, winding a, winding b, |bnd a|, |bnd b|)
    # line counters are kept unsigned through squares of distinct slots
    lines = []
    for which, group in ((0, lines_a), (1, lines_b)):
        for line in group:
            pts = [grid.snap(p) for p in line]
            lines.append((which, pts))
            for a, b in zip(pts, pts[1:]):
                if a != b:
                    segs.setdefault((min(a, b), max(a, b)), ())
    for rings in (rings_a, rings_b):
        for ring in rings:
            pts = [grid.snap(p) for p in ring]
            for a, b in zip(pts, pts[1:] + pts[:1]):
                if a != b:
                    segs.setdefault((min(a, b), max(a, b)), ())
    segs = _split_all(segs)
    index = {}
    # adjacency to walk original segments through their noded parts
    by_line = []
    verts = sorted({p for s in segs for p in s})
    va = np.array(verts, dtype=np.int64).reshape(-1, 2)

    def parts(a, b):
        """Noded chain from a to b (the noded path stays within one unit)."""
        if (min(a, b), max(a, b)) in segs:
            return [a, b]
        key = (a, b)
        if key in index:
            return index[key]
        dx, dy = b[0] - a[0], b[1] - a[1]
        L = math.hypot(dx, dy)
        dist = np.abs(dx * (va[:, 1] - a[1]) - dy * (va[:, 0] - a[0])) / L
        t = (dx * (va[:, 0] - a[0]) + dy * (va[:, 1] - a[1])) / L
        near = [verts[i] for i in
                np.nonzero((dist <= 2.0) & (t >= -2) & (t <= L + 2))[0]]
        near.sort(key=lambda p: (p[0] - a[0]) * dx + (p[1] - a[1]) * dy)
        # breadth first walk along existing noded edges
        from collections import deque
        nears = set(near) | {a, b}
        adj = {}
        for i, p in enumerate(near):
            for q in near:
                if p != q and (min(p, q), max(p, q)) in segs:
                    adj.setdefault(p, []).append(q)
        prev = {a: None}
        dq = deque([a])
        while dq:
            p = dq.popleft()
            if p == b:
                break
            for q in adj.get(p, ()):
                if q not in prev:
                    prev[q] = p
                    dq.append(q)
        if b not in prev:
            raise OverlayError('lost a line while noding')
        path = [b]
        while prev[path[-1]] is not None:
            path.append(prev[path[-1]])
        path.reverse()
        index[key] = path
        return path

    info = {s: [0, 0, 0, 0] for s in segs}
    chains = []
    for which, pts in lines:
        chain = [pts[0]]
        for a, b in zip(pts, pts[1:]):
            if a != b:
                chain.extend(parts(a, b)[1:])
        chains.append((which, chain))
        for a, b in zip(chain, chain[1:]):
            info[(min(a, b), max(a, b))][which] += 1
    bnd = {}
    for which, rings in ((0, rings_a), (1, rings_b)):
        for ring in rings:
            pts = [grid.snap(p) for p in ring]
            for a, b in zip(pts, pts[1:] + pts[:1]):
                if a == b:
                    continue
                ch = parts(a, b)
                for p, q in zip(ch, ch[1:]):
                    s = (min(p, q), max(p, q))
                    sign = 1 if (p, q) == s else -1
                    bnd.setdefault(s, [0, 0])[which] += sign
                    info[s][2 + which] += 1
    # windings at the middle of every line edge with respect to the rings
    bkeys = list(bnd)
    if bkeys:
        barr = np.array(bkeys, dtype=np.int64).reshape(-1, 4)
        bm = np.array([bnd[s] for s in bkeys], dtype=np.int64)
    else:
        barr = np.zeros((0, 4), dtype=np.int64)
        bm = np.zeros((0, 2), dtype=np.int64)

    def winding(s):
        (ax, ay), (bx, by) = s
        mx, my = ax + bx, ay + by
        x0, y0, x1, y1 = (2 * barr[:, i] for i in range(4))
        up = (y0 <= my) & (my < y1)
        down = (y1 <= my) & (my < y0)
        cross = (x1 - x0) * (my - y0) - (y1 - y0) * (mx - x0)
        east = (up & (cross > 0)) | (down & (cross < 0))
        sgn = np.where(up, 1, -1)[east]
        return (bm[east] * sgn[:, None]).sum(axis=0)

    degree = {}
    for s in segs:
        for p in s:
            degree[p] = degree.get(p, 0) + 1
    done = set()
    result = []
    ends = set()
    for which, chain in chains:
        ends.add(chain[0])
        ends.add(chain[-1])
    for which, chain in chains:
        cur = []
        for p, q in zip(chain, chain[1:]):
            s = (min(p, q), max(p, q))
            ia, ib, ba, bb = info[s]
            ok = s not in done
            if ok:
                w = winding(s) if len(bkeys) else (0, 0)
                ok = keep(ia > 0, ib > 0, w[0] != 0 and not ba,
                          w[1] != 0 and not bb, ba > 0, bb > 0)
            done.add(s)
            if ok:
                if not cur:
                    cur = [p]
                cur.append(q)
                if degree[q] > 2 or q in ends:
                    result.append(cur)
                    cur = []
            elif cur:
                result.append(cur)
                cur = []
        if cur:
            result.append(cur)
    return [[grid.point(p) for p in c] for c in result if len(c) > 1]
