"""Generated finite vectors (axis-aligned, tiny, huge, collinear, repeated,
views into larger and structured arrays) and angles (exact multiples of pi, many
turns), every operation against its definition computed independently with
Python floats, array forms against element-wise forms, argument snapshots
around every call. Non-trivial: no zero vector among the arguments."""
import math

import numpy as np

from crowddynamics.core import vector2D as V
from harness import section

RULE = __doc__


def component(r, big=100):
    return r.choice([0.0, 1.0, -1.0, r.uniform(-1, 1), r.uniform(-1e3, 1e3),
                     r.choice([1, -1]) * 10 ** r.uniform(-big, big)])


def vector(r, big=100):
    """A float vector, possibly a view."""
    v = (component(r, big), component(r, big))
    if r.random() < .2:
        a = r.uniform(-math.pi, math.pi)
        v = (math.cos(a), math.sin(a))
    kind = r.randrange(4)
    if kind == 0:
        return np.array(v)
    if kind == 1:
        a = np.zeros((3, 2))
        a[1] = v
        return a[1]
    if kind == 2:
        a = np.zeros(2, dtype=[('a', np.float64), ('v', np.float64, 2)])
        a['v'][1] = v
        return a[1]['v']
    a = np.zeros((2, 3))
    a[:, 1] = v
    return a[:, 1]


def angle_value(r):
    k = r.choice([0, 1, -1, 2, -2, 3, -3, 5, 8, -13])
    return r.choice([k * math.pi, k * math.pi / 2, math.nextafter(
        math.pi, r.choice([0, 9])) if hasattr(math, 'nextafter') else math.pi,
        r.uniform(-4, 4), r.uniform(-100, 100), r.uniform(-1e6, 1e6),
        -10 ** r.uniform(-300, 0), 10 ** r.uniform(-300, 0), 0.0, -0.0,
        math.pi, -math.pi,
        # next to where the range ends
        k * math.pi + r.choice([1, -1]) * 10 ** r.uniform(-12, -2)])


class Unchanged(object):
    def __init__(self, c, name, *arrays):
        self.c, self.name, self.arrays = c, name, arrays

    def __enter__(self):
        self.before = [np.array(a, copy=True).tobytes() for a in self.arrays]

    def __exit__(self, et, ev, tb):
        if et is None:
            for a, b in zip(self.arrays, self.before):
                self.c.check(np.array(a, copy=True).tobytes() == b,
                             'argument-changed', self.name)


def close(c, got, want, mech, scale=None, detail=''):
    """Relative to the size of the terms."""
    s = max(abs(x) for x in np.ravel(want)) if scale is None else scale
    c.close(got, want, mech, rtol=1e-12, atol=1e-12 * s + 1e-320,
            detail=detail)


@section('vectors', 800, 60000)
def vectors(c):
    r = c.rng
    v, w = vector(r), vector(r)
    x, y = float(v[0]), float(v[1])
    p, q = float(w[0]), float(w[1])
    c.note('v', x, y, 'w', p, q)
    with Unchanged(c, 'rotate', v):
        a, b = c.call('rotate90', V.rotate90, v), \
            c.call('rotate270', V.rotate270, v)
    c.check(tuple(a) == (-y, x), 'rotate90', a, v)
    c.check(tuple(b) == (y, -x), 'rotate270', b, v)
    c.check(np.array_equal(V.rotate270(a), v), 'inverse')
    c.check(np.array_equal(V.rotate90(b), v), 'inverse')
    c.check(a.base is None or not np.shares_memory(a, v), 'shared-result')
    a[:] = 77.0
    c.check((float(v[0]), float(v[1])) == (x, y), 'result-aliases-argument')
    with Unchanged(c, 'length', v, w):
        l = c.call('length', V.length, v)
        ang = c.call('angle', V.angle, v)
        d = c.call('dot', V.dot, v, w)
        k = c.call('cross', V.cross, v, w)
    close(c, l, math.hypot(x, y), 'length')
    close(c, V.length(V.rotate90(v)), float(l), 'rotation-length')
    c.close(ang, math.atan2(y, x), 'angle', rtol=1e-12, atol=1e-15)
    scale = abs(x * p) + abs(y * q)
    close(c, d, math.fsum([x * p, y * q]), 'dot', scale)
    close(c, V.dot(w, v), float(d), 'dot-symmetry', scale)
    scale = abs(x * q) + abs(y * p)
    close(c, k, x * q - y * p, 'cross', scale)
    close(c, V.cross(w, v), -float(k), 'cross-antisymmetry', scale)
    with Unchanged(c, 'normalize', v):
        n = c.call('normalize', V.normalize, v)
    h = math.hypot(x, y)
    if h == 0:
        c.check(n[0] == 0 and n[1] == 0, 'normalize-zero', n)
    else:
        c.close(n, [x / h, y / h], 'normalize', rtol=1e-12, atol=1e-14)
        c.close(V.length(n), 1.0, 'normalize-length', rtol=1e-12)
    # truncation works in place and never lengthens
    u = np.array(v, copy=True)
    lim = r.choice([10 ** r.uniform(-50, 50), 1.0,
                    h * r.choice([.5, 1.0, 1.5, 1 - 1e-12, 1 + 1e-12])])
    if not lim > 0:
        lim = 1.0
    c.call('truncate', V.truncate, u, lim)
    got = math.hypot(u[0], u[1])
    c.check(got <= max(h, 0) * (1 + 1e-14), 'truncate-lengthens', v, lim, u)
    if abs(h - lim) <= 1e-12 * lim:
        close(c, u, [x, y], 'truncate-limit', lim)
    elif h <= lim:
        c.check(np.array_equal(u, v), 'truncate-within', v, lim, u)
    else:
        close(c, u, [x / h * lim, y / h * lim], 'truncate', lim,
              (x, y, lim))
    if x or y:
        c.nontrivial(x, y, p, q)
    c.sample((x, y, p, q, lim))


@section('angles', 500, 40000)
def angles(c):
    r = c.rng
    t = angle_value(r)
    w = c.call('wrap', V.wrap_to_pi, t)
    w = float(w)
    c.check(-math.pi <= w <= math.pi, 'wrap-range', t, w)
    turns = (t - w) / (2 * math.pi)
    c.check(abs(turns - round(turns)) < 1e-12 + 1e-15 * abs(t),
            'wrap-turns', t, w)
    if -math.pi < t < math.pi:
        c.close(w, t, 'wrap-identity', rtol=1e-12, atol=1e-15)
    if t == math.pi or t == -math.pi:
        c.check(w == t, 'wrap-pi', t, w)
    c.close(V.wrap_to_pi(w), w, 'wrap-idempotent', rtol=1e-12, atol=1e-15)
    e = c.call('unit_vector', V.unit_vector, t)
    c.equal(e.shape, (2,), 'unit-shape')
    c.close(e, [math.cos(t), math.sin(t)], 'unit-vector', rtol=1e-9,
            atol=1e-12)
    c.close(math.hypot(e[0], e[1]), 1.0, 'unit-length', rtol=1e-12)
    diff = float(V.angle(e)) - w
    diff -= 2 * math.pi * round(diff / (2 * math.pi))
    c.check(abs(diff) < 1e-9, 'unit-angle', t, V.angle(e), w)
    n = r.choice([1, 2, 7])
    ts = np.array([angle_value(r) for _ in range(n)])
    with Unchanged(c, 'angles', ts):
        ws = c.call('wrap', V.wrap_to_pi, ts)
        es = c.call('unit_vector', V.unit_vector, ts)
    c.equal(es.shape, (n, 2), 'unit-array-shape')
    for i in range(n):
        c.close(ws[i], V.wrap_to_pi(float(ts[i])), 'wrap-array', rtol=1e-15)
        c.close(es[i], V.unit_vector(float(ts[i])), 'unit-array', rtol=1e-14)
    c.nontrivial(t, ts.tolist())
    c.sample((t, w))


@section('arrays', 300, 20000)
def arrays(c):
    r = c.rng
    n = r.choice([1, 2, 3, 8])
    a = np.array([vector(r, 50) for _ in range(n)])
    b = np.array([vector(r, 50) for _ in range(n)])
    if r.random() < .3:
        s = np.zeros(n, dtype=[('p', float, 2), ('x', float)])
        s['p'] = a
        a = s['p']
    weight = r.choice([0.0, 1.0, .5, r.random()])
    with Unchanged(c, 'arrays', a, b):
        out = {f.__name__: c.call(f.__name__, f, a) for f in
               (V.angle, V.length)}
        out2 = {f.__name__: c.call(f.__name__, f, a, b) for f in
                (V.dot, V.cross)}
        avg = c.call('weighted_average', V.weighted_average, a, b, weight)
    for name, got in out.items():
        c.equal(got.shape, (n,), 'shape', name)
        for i in range(n):
            c.close(got[i], getattr(V, name)(a[i]), 'array-' + name,
                    rtol=1e-13)
    for name, got in out2.items():
        c.equal(got.shape, (n,), 'shape', name)
        for i in range(n):
            size = np.max(np.abs(a[i])) * np.max(np.abs(b[i]))
            close(c, got[i], getattr(V, name)(a[i], b[i]), 'array-' + name,
                  size)
    c.equal(avg.shape, (n, 2), 'shape', 'weighted_average')
    for i in range(n):
        with Unchanged(c, 'weighted_average', a, b):
            one = c.call('weighted_average', V.weighted_average, a[i], b[i],
                         weight)
        want = [weight * float(a[i][k]) + (1 - weight) * float(b[i][k])
                for k in (0, 1)]
        size = max(np.max(np.abs(a[i])), np.max(np.abs(b[i])))
        h = math.hypot(*want)
        unit = [x / h for x in want] if h else want
        # the definition is normalised, callers normalise its result: both do
        for got in (one, avg[i]):
            ok = any(np.all(np.abs(np.asarray(got) - np.array(x)) <=
                            1e-12 * s + 1e-320)
                     for x, s in ((want, size), (unit, max(1, size / h
                                                           if h else 1))))
            c.check(ok, 'weighted-average', a[i], b[i], weight, got)
    c.nontrivial(a.tolist(), b.tolist(), weight)
    c.sample((n, weight))
