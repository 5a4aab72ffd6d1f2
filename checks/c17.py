"""Generated circles, three-circle bodies and wall segments (apart, touching,
overlapping, nested, far from the origin, thin and round bodies) against an
independent geometric oracle, and under swaps, rotations, reflections of the
wall's ends and translations. Non-trivial: a unique closest pair of parts."""
import math

import numpy as np

from crowddynamics.core import distance as D
from exact import closest_on_segment, dist, point_segment
from harness import section

RULE = __doc__


def point(r, scale=1.0):
    return (r.uniform(-1, 1) * scale, r.uniform(-1, 1) * scale)


def body(r, at, scale):
    """((centre, left, right), (r_t, r_s, r_s)); sometimes arbitrary parts."""
    if r.random() < .8:
        phi = r.choice([0.0, math.pi / 2, r.uniform(-math.pi, math.pi)])
        d = r.uniform(.05, .5) * scale
        e = (math.sin(phi), -math.cos(phi))
        x = (at, (at[0] - d * e[0], at[1] - d * e[1]),
             (at[0] + d * e[0], at[1] + d * e[1]))
        s = r.uniform(.02, .3) * scale
        rad = (r.uniform(.02, .4) * scale, s, s)
    else:
        x = (at,) + tuple((at[0] + q[0], at[1] + q[1]) for q in
                          (point(r, scale), point(r, scale)))
        rad = tuple(r.uniform(0, .5) * scale for _ in range(3))
    return x, rad


def arr(x):
    if isinstance(x[0], tuple):
        return tuple(np.array(p) for p in x)
    return np.array(x)


def rigid(r):
    a = r.uniform(-math.pi, math.pi)
    t = point(r, 30)
    f = r.choice([1, 1, -1])

    def move(p):
        x, y = p[0], f * p[1]
        return (math.cos(a) * x - math.sin(a) * y + t[0],
                math.sin(a) * x + math.cos(a) * y + t[1])

    def turn(v):
        x, y = v[0], f * v[1]
        return (math.cos(a) * x - math.sin(a) * y,
                math.sin(a) * x + math.cos(a) * y)
    return move, turn


def upright(r, at, scale, phi):
    """A body whose three parts are as thick as each other."""
    d = r.uniform(.1, .5) * scale
    e = (math.sin(phi), -math.cos(phi))
    x = (at, (at[0] - d * e[0], at[1] - d * e[1]),
         (at[0] + d * e[0], at[1] + d * e[1]))
    return x, (r.uniform(.02, .3) * scale,) * 3


def turned(x, phi):
    """The points turned about the first one."""
    s, k = math.sin(phi), math.cos(phi)
    return tuple((x[0][0] + k * (p[0] - x[0][0]) - s * (p[1] - x[0][1]),
                  x[0][1] + s * (p[0] - x[0][0]) + k * (p[1] - x[0][1]))
                 for p in x)


class Frozen(object):
    """Arguments stay as they are."""

    def __init__(self, c, *args):
        self.c, self.args = c, args
        self.before = repr([np.array(a).tolist() for a in args])

    def done(self):
        self.c.equal(repr([np.array(a).tolist() for a in self.args]),
                     self.before, 'argument-changed')


def normal_ok(c, n, want, gap_len, scale, mech):
    if gap_len < 1e-7 * scale:
        return          # direction not defined
    c.close(n, want, mech, rtol=1e-7, atol=1e-7 * scale / gap_len * 1e-3 +
            1e-8)
    c.close(math.hypot(n[0], n[1]), 1.0, mech + '-length', rtol=1e-9)


@section('circles', 500, 40000)
def circles(c):
    r = c.rng
    scale = 10 ** r.uniform(-2, 2)
    x0, x1 = point(r, scale), point(r, scale)
    r0, r1 = r.uniform(0, 1) * scale, r.choice([0.0, r.uniform(0, 1) * scale])
    if r.random() < .1:
        x1 = x0
    elif r.random() < .1:       # one almost on the other
        d = 10 ** r.uniform(-6.9, -2) * scale
        phi = r.uniform(-math.pi, math.pi)
        x1 = (x0[0] + d * math.cos(phi), x0[1] + d * math.sin(phi))
    elif r.random() < .3:
        phi = r.uniform(-math.pi, math.pi)
        x1 = (x0[0] + (r0 + r1) * math.cos(phi),
              x0[1] + (r0 + r1) * math.sin(phi))
    a, b = arr(x0), arr(x1)
    fr = Frozen(c, a, b)
    h, n = c.call('distance_circles', D.distance_circles, a, r0, b, r1)
    fr.done()
    d = dist(x0, x1)
    c.close(h, d - r0 - r1, 'distance', rtol=1e-9, atol=1e-12 * scale)
    if x0 == x1:
        c.check(n[0] == 0 and n[1] == 0, 'normal-same-centre', n)
    else:
        normal_ok(c, n, ((x0[0] - x1[0]) / d, (x0[1] - x1[1]) / d), d, scale,
                  'normal')
    h2, n2 = D.distance_circles(b, r1, a, r0)
    c.close(h2, h, 'swap-distance', rtol=1e-9, atol=1e-12 * scale)
    c.close(n2, -n, 'swap-normal', rtol=1e-9)
    move, turn = rigid(r)
    h3, n3 = D.distance_circles(arr(move(x0)), r0, arr(move(x1)), r1)
    c.close(h3, h, 'moved-distance', rtol=1e-7, atol=1e-9 * max(scale, 30))
    if d > 1e-3 * scale:
        c.close(n3, turn(n), 'moved-normal', rtol=1e-6, atol=1e-6 *
                max(1, 30 / scale))
    c.nontrivial(x0, r0, x1, r1)
    c.sample((x0, r0, x1, r1, float(h)))


@section('bodies', 500, 40000)
def bodies(c):
    r = c.rng
    scale = 10 ** r.uniform(-1, 1)
    (x0, r0) = body(r, point(r, 2 * scale), scale)
    (x1, r1) = body(r, point(r, 2 * scale), scale)
    if r.random() < .15:        # side by side, almost in line
        phi = r.uniform(-math.pi, math.pi)
        x0, r0 = upright(r, x0[0], scale, phi)
        g = r.uniform(.1, 2) * scale
        x1 = tuple((p[0] + g * math.cos(phi), p[1] + g * math.sin(phi))
                   for p in turned(x0, 10 ** r.uniform(-6, -2) *
                                   r.choice([1, -1])))
        r1 = r0
        c.count('almost in line')
    a, b = arr(x0), arr(x1)
    fr = Frozen(c, a, b)
    out = c.call('distance_three_circles', D.distance_three_circles, a, r0, b,
                 r1)
    fr.done()
    h, n, m0, m1 = out
    gaps = sorted((dist(x0[i], x1[j]) - r0[i] - r1[j], i, j)
                  for i in range(3) for j in range(3))
    c.close(h, gaps[0][0], 'distance', rtol=1e-9, atol=1e-11 * scale)
    unique = gaps[1][0] - gaps[0][0] > 1e-9 * scale
    g, i, j = gaps[0]
    d = dist(x0[i], x1[j])
    if unique and d > 1e-6 * scale:
        want = ((x0[i][0] - x1[j][0]) / d, (x0[i][1] - x1[j][1]) / d)
        normal_ok(c, n, want, d, scale, 'normal')
        for k in (0, 1):
            c.close(m0[k], x0[i][k] + r0[i] * want[k] - x0[0][k],
                    'moment-arm-0', rtol=1e-7, atol=1e-8 * scale,
                    detail=(i, j))
            c.close(m1[k], x1[j][k] - r1[j] * want[k] - x1[0][k],
                    'moment-arm-1', rtol=1e-7, atol=1e-8 * scale,
                    detail=(i, j))
        # on the surface of the closest part
        for m, x, part, rad in ((m0, x0, i, r0), (m1, x1, j, r1)):
            s = (m[0] + x[0][0], m[1] + x[0][1])
            c.close(dist(s, x[part]), rad[part], 'arm-on-surface', rtol=1e-7,
                    atol=1e-8 * scale)
        c.state('closest', i, j, h < 0)
        c.nontrivial(x0, r0, x1, r1)
        h2, n2, q1, q0 = D.distance_three_circles(b, r1, a, r0)
        c.close(h2, h, 'swap-distance', rtol=1e-9, atol=1e-11 * scale)
        c.close(n2, -n, 'swap-normal', rtol=1e-8, atol=1e-9)
        c.close(q0, m0, 'swap-arm', rtol=1e-7, atol=1e-8 * scale)
        c.close(q1, m1, 'swap-arm', rtol=1e-7, atol=1e-8 * scale)
        move, turn = rigid(r)
        y0, y1 = tuple(map(move, x0)), tuple(map(move, x1))
        h3, n3, p0, p1 = D.distance_three_circles(arr(y0), r0, arr(y1), r1)
        c.close(h3, h, 'moved-distance', rtol=1e-7, atol=1e-9)
        if d > 1e-3 * scale and gaps[1][0] - g > 1e-6 * scale:
            c.close(n3, turn(n), 'moved-normal', rtol=1e-6, atol=1e-6)
            c.close(p0, turn(m0), 'moved-arm', rtol=1e-6, atol=1e-6 * scale)
            c.close(p1, turn(m1), 'moved-arm', rtol=1e-6, atol=1e-6 * scale)
    c.sample((x0, r0, x1, r1, float(h)))


def wall(r, scale, near):
    k = r.randrange(4)
    p0 = point(r, scale)
    if k == 0:
        p1 = point(r, scale)
    elif k == 1:
        p1 = (p0[0] + r.choice([1, -1]) * scale, p0[1])
    elif k == 2:
        p1 = (p0[0], p0[1] + r.choice([1, -1]) * scale)
    else:   # the end points straight at the circle
        t = r.uniform(.1, 3)
        p1 = (p0[0] + t * (near[0] - p0[0]), p0[1] + t * (near[1] - p0[1]))
    if dist(p0, p1) < 1e-3 * scale:
        p1 = (p0[0] + scale, p0[1])
    return p0, p1


@section('circle-wall', 500, 40000)
def circle_wall(c):
    r = c.rng
    scale = 10 ** r.uniform(-1, 1.5)
    x = point(r, scale)
    rad = r.choice([0.0, r.uniform(0, 1) * scale])
    p0, p1 = wall(r, scale, x)
    if r.random() < .15:    # close to where the wall ends
        a = r.uniform(-math.pi, math.pi)
        t = (math.cos(a), math.sin(a))
        w = r.uniform(.5, 2) * scale
        over = 10 ** r.uniform(-7, -1) * r.choice([1, -1]) * w
        off = 10 ** r.uniform(-3, 0) * r.choice([1, -1]) * scale
        p1 = (x[0] - over * t[0] + off * t[1], x[1] - over * t[1] - off * t[0])
        p0 = (p1[0] - w * t[0], p1[1] - w * t[1])
        c.count('close to an end')
    elif r.random() < .12:  # right opposite of a very short wall
        a = r.uniform(-math.pi, math.pi)
        t = (math.cos(a), math.sin(a))
        w = 10 ** r.uniform(-5, -.5) * scale
        u = w * r.uniform(.1, .9)
        off = r.uniform(.05, 1) * r.choice([1, -1]) * scale
        p0 = (x[0] - u * t[0] + off * t[1], x[1] - u * t[1] - off * t[0])
        p1 = (p0[0] + w * t[0], p0[1] + w * t[1])
        c.count('short walls')
    ar = [arr(x), arr(p0), arr(p1)]
    fr = Frozen(c, *ar)
    h, n = c.call('distance_circle_line', D.distance_circle_line, ar[0], rad,
                  ar[1], ar[2])
    fr.done()
    d = point_segment(x, p0, p1)
    q = closest_on_segment(x, p0, p1)
    c.close(h, d - rad, 'wall-distance', rtol=1e-9, atol=1e-10 * scale)
    if d > 1e-5 * scale:
        want = ((x[0] - q[0]) / d, (x[1] - q[1]) / d)
        c.close(n, want, 'wall-normal', rtol=1e-7, atol=1e-7 * scale / d *
                1e-2 + 1e-9)
        c.close(math.hypot(n[0], n[1]), 1.0, 'wall-normal-length', rtol=1e-9)
        h2, n2 = D.distance_circle_line(ar[0], rad, ar[2], ar[1])
        c.close(h2, h, 'wall-reversed', rtol=1e-9, atol=1e-10 * scale)
        c.close(n2, n, 'wall-reversed-normal', rtol=1e-6, atol=1e-6)
        move, turn = rigid(r)
        h3, n3 = D.distance_circle_line(arr(move(x)), rad, arr(move(p0)),
                                        arr(move(p1)))
        c.close(h3, h, 'moved-distance', rtol=1e-7, atol=1e-8 *
                max(1, scale))
        if d > 1e-3 * scale:
            c.close(n3, turn(n), 'moved-normal', rtol=1e-5, atol=1e-5)
        c.state('region', q == p0, q == p1, h < 0)
        c.nontrivial(x, rad, p0, p1)
    c.sample((x, rad, p0, p1, float(h)))


@section('body-wall', 400, 30000)
def body_wall(c):
    r = c.rng
    scale = 10 ** r.uniform(-1, 1)
    x, rad = body(r, point(r, scale), scale)
    p0, p1 = wall(r, 2 * scale, x[r.randrange(3)])
    if r.random() < .15:        # almost along the wall
        phi = r.uniform(-math.pi, math.pi)
        x, rad = upright(r, x[0], scale, phi)
        g = r.uniform(.05, 1) * scale
        t = turned(((0.0, 0.0), (-math.sin(phi), math.cos(phi))),
                   10 ** r.uniform(-6, -2) * r.choice([1, -1]))[1]
        m = (x[0][0] + g * math.cos(phi), x[0][1] + g * math.sin(phi))
        p0 = (m[0] - 2 * scale * t[0], m[1] - 2 * scale * t[1])
        p1 = (m[0] + 2 * scale * t[0], m[1] + 2 * scale * t[1])
        c.count('almost along')
    ar = [arr(x), arr(p0), arr(p1)]
    fr = Frozen(c, *ar)
    h, n, m = c.call('distance_three_circle_line',
                     D.distance_three_circle_line, ar[0], rad, ar[1], ar[2])
    fr.done()
    gaps = sorted((point_segment(x[i], p0, p1) - rad[i], i) for i in range(3))
    c.close(h, gaps[0][0], 'wall-distance', rtol=1e-9, atol=1e-10 * scale)
    i = gaps[0][1]
    q = closest_on_segment(x[i], p0, p1)
    d = dist(x[i], q)
    if gaps[1][0] - gaps[0][0] > 1e-7 * scale and d > 1e-5 * scale:
        want = ((x[i][0] - q[0]) / d, (x[i][1] - q[1]) / d)
        c.close(n, want, 'wall-normal', rtol=1e-6, atol=1e-6)
        for k in (0, 1):
            c.close(m[k], x[i][k] - rad[i] * want[k] - x[0][k],
                    'wall-moment-arm', rtol=1e-6, atol=1e-6 * scale)
        s = (m[0] + x[0][0], m[1] + x[0][1])
        c.close(dist(s, x[i]), rad[i], 'arm-on-surface', rtol=1e-7,
                atol=1e-8 * scale)
        c.state('closest', i, h < 0)
        c.nontrivial(x, rad, p0, p1)
    c.sample((x, rad, p0, p1, float(h)))
