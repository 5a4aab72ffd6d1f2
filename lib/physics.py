"""Independent laws of motion used as oracles (plain floats, written from the
documented formulas, not from the implementation)."""
import math

from exact import cross, dist, parts, sub

F_MAX = 2e3
TAU_MAX = 30.0
SIGHT = 3.0
EPS = 2.3e-16


class Unclear(Exception):
    """The case is borderline: rounding decides."""


def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def mul(k, a):
    return (k * a[0], k * a[1])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def norm(a):
    return math.hypot(a[0], a[1])


def vec(v):
    return (float(v[0]), float(v[1]))


def first_contact(parts_i, parts_j, v):
    """(tau, gradient of tau wrt the position of i, relative accuracy) or None.

    The parts of i move with relative velocity ``v``. Raises Unclear when
    rounding could decide whether or which parts collide.
    """
    speed2 = dot(v, v)
    if speed2 == 0:
        return None
    found = []
    for p, r in parts_i:
        for q, s in parts_j:
            x = sub(p, q)
            tot = r + s
            x2 = dot(x, x)
            gap = math.sqrt(x2) - tot
            scale = tot + norm(p) + norm(q)
            if abs(gap) < 1e-9 * scale:
                raise Unclear('touching')
            if gap < 0:
                return None                       # overlapping
    for p, r in parts_i:
        for q, s in parts_j:
            x = sub(p, q)
            tot = r + s
            b = -dot(x, v)
            # nearest distance of the two lines of motion
            miss = abs(cross(x, v)) / math.sqrt(speed2)
            scale = tot + norm(p) + norm(q)
            if abs(miss - tot) < 1e-9 * scale:
                raise Unclear('grazing')
            if miss > tot:
                continue
            if b <= 0:
                continue                          # moving apart
            half = math.sqrt((tot - miss) * (tot + miss))
            way = b / math.sqrt(speed2)           # to the nearest point
            gap = norm(x) - tot
            # way - half without cancellation
            tau = gap * (norm(x) + tot) / (way + half) / math.sqrt(speed2)
            n = mul(1 / tot, add(x, mul(tau, v)))
            nv = dot(n, v)
            grad = mul(-1 / nv, n)
            acc = EPS * 40 * (scale / gap + (scale / half) ** 2 + scale / tot)
            found.append((tau, grad, acc))
    if not found:
        return None
    found.sort()
    tau, grad, acc = found[0]
    for other in found[1:]:
        if other[0] - tau < 1e-9 * tau + acc * tau:
            if dist(other[1], grad) > 1e-9 * norm(grad):
                raise Unclear('two parts at once')
    return tau, grad, acc


def energy(k, m, tau, tau0):
    return m * k / tau ** 2 * math.exp(-tau / tau0)


def slope(k, m, tau, tau0):
    """dE/dtau"""
    return -m * k * (2 / tau + 1 / tau0) * math.exp(-tau / tau0) / tau ** 2


def capped(f, limit=F_MAX):
    n = norm(f)
    return mul(limit / n, f) if n > limit else f


def social(rec_i, rec_j, model):
    """((force_i, force_j), relative accuracy)"""
    v = sub(vec(rec_i['velocity']), vec(rec_j['velocity']))
    hit = first_contact(parts(rec_i, model), parts(rec_j, model), v)
    zero = ((0.0, 0.0), (0.0, 0.0))
    if hit is None:
        return zero, 0.0
    tau, grad, acc = hit
    if abs(tau - TAU_MAX) < 1e-6:
        raise Unclear('horizon')
    if tau > TAU_MAX:
        if model == 'circular':
            return zero, 0.0
    out = []
    for rec, sign in ((rec_i, 1), (rec_j, -1)):
        e = slope(float(rec['k_soc']), float(rec['mass']), tau,
                  float(rec['tau_0']))
        out.append(capped(mul(-sign * e, grad)))
    tau_min = min(float(rec_i['tau_0']), float(rec_j['tau_0']))
    return tuple(out), acc * (6 + tau / tau_min)


def contact(h, n, v, rec):
    """Documented contact law for overlap h < 0 along the unit normal n."""
    t = (n[1], -n[0])
    mu, kappa, c = (float(rec[k]) for k in ('mu', 'kappa', 'damping'))
    vt, vn = dot(v, t), dot(v, n)
    return (-h * (mu * n[0] - kappa * vt * t[0]) + c * vn * n[0],
            -h * (mu * n[1] - kappa * vt * t[1]) + c * vn * n[1])


def closest_parts(parts_i, parts_j):
    """(h, i, j) of the closest parts; Unclear when not unique."""
    g = sorted((dist(p, q) - r - s, i, j)
               for i, (p, r) in enumerate(parts_i)
               for j, (q, s) in enumerate(parts_j))
    scale = 1 + norm(parts_i[0][0]) + norm(parts_j[0][0])
    if len(g) > 1 and g[1][0] - g[0][0] < 1e-8 * scale:
        raise Unclear('two closest parts')
    return g[0]


def pair_effect(rec_i, rec_j, model):
    """Effect of one pair: ((force, torque) of i, of j), tolerances, tags."""
    pi, pj = parts(rec_i, model), parts(rec_j, model)
    far = dist(pi[0][0], pj[0][0]) - sum(
        max(dist(p[0][0], x) + r for x, r in p) for p in (pi, pj))
    nothing = (((0.0, 0.0), 0.0), ((0.0, 0.0), 0.0))
    if far > SIGHT + 1e-6:
        return nothing, (0.0, 0.0), 'far'
    g = sorted((dist(p, q) - r - s, i, j) for i, (p, r) in enumerate(pi)
               for j, (q, s) in enumerate(pj))
    h = g[0][0]
    if abs(h - SIGHT) < 1e-8 or abs(h) < 1e-8:
        raise Unclear('range or touching')
    if h > SIGHT:
        return nothing, (0.0, 0.0), 'far'
    h, i, j = closest_parts(pi, pj)
    (fi, fj), acc = social(rec_i, rec_j, model)
    tag = 'social' if norm(fi) else 'none'
    x, y = pi[i][0], pj[j][0]
    d = dist(x, y)
    if d < 1e-6:
        raise Unclear('same centre')
    n = mul(1 / d, sub(x, y))
    if h < 0:
        tag = 'contact'
        v = sub(vec(rec_i['velocity']), vec(rec_j['velocity']))
        fi = add(fi, contact(h, n, v, rec_i))
        fj = sub(fj, contact(h, n, v, rec_j))
        acc += 1e-13 * (1 + norm(x)) / min(1, d, 1e-3 - h)
    ti = tj = 0.0
    if model == 'three_circle':
        mi = sub(add(x, mul(pi[i][1], n)), pi[0][0])
        mj = sub(sub(y, mul(pj[j][1], n)), pj[0][0])
        ti, tj = cross(mi, fi), cross(mj, fj)
    return ((fi, ti), (fj, tj)), (
        (1e-10 + acc * 20) * norm(fi) + 1e-10,
        (1e-10 + acc * 20) * norm(fj) + 1e-10), tag


def wall_effect(rec, a, b, model):
    """((force, torque) of a wall on an agent, tolerance, touches)."""
    from exact import closest_on_segment, point_segment
    q = parts(rec, model)
    scale = 1 + norm(q[0][0]) + norm(a) + norm(b)
    g = sorted((point_segment(x, a, b) - r, i) for i, (x, r) in enumerate(q))
    if abs(g[0][0]) < 1e-9 * scale:
        raise Unclear('touching')
    if g[0][0] > 0:
        return ((0.0, 0.0), 0.0), 0.0, False
    if len(g) > 1 and g[1][0] - g[0][0] < 1e-8 * scale:
        raise Unclear('two closest parts')
    h, i = g[0]
    x, r = q[i]
    y = closest_on_segment(x, a, b)
    d = dist(x, y)
    if d < 1e-5 * scale:
        raise Unclear('centre on the wall')
    n = mul(1 / d, sub(x, y))
    f = contact(h, n, vec(rec['velocity']), rec)
    t = 0.0
    if model == 'three_circle':
        t = cross(sub(sub(x, mul(r, n)), q[0][0]), f)
    return (f, t), (1e-10 + 1e-13 * scale / d * scale) * norm(f) + 1e-10, True
