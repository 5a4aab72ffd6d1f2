"""Random direction and distance maps (obstacles near, far, at exactly the
radius, directions that cancel) merged on the grid and per agent; lookups with
cells in and out of the map; and the navigation node on random scenes with
agents of several targets, without targets, outside the grid and on ridges.
Monitors compare every cell with the documented law, every agent with the map of
its own target, and all other state with its former bytes; walks along merged
maps never cross an obstacle. Non-trivial: cells on both sides of the radius,
agents of at least two kinds."""
import math

import numpy as np

from crowddynamics.core.steering import navigation as N
from crowddynamics.core.steering import obstacle_handling as O
from crowddynamics.core.steering import quickest_path as Q
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import Navigation
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from exact import dist
from gridways import boundary_distance, distance_to, inside
from harness import section
from scenes import make, random_point, to_shapely
from sims import diff_fields, flags, make_agents, snapshot

RULE = __doc__


def unit_map(c, n, m):
    a = c.np.uniform(-math.pi, math.pi, (n, m))
    k = c.rng.randrange(4)
    if k == 0:
        a = np.round(a / (math.pi / 2)) * (math.pi / 2)
    return np.cos(a), np.sin(a)


def blend(d, o, t, radius, strength):
    """Direction at a distance d of the obstacle with the directions to the
    obstacle and to the target."""
    if not 0 < d < radius:
        return t
    p = strength ** (d / radius)
    return (-p * o[0] + (1 - p) * t[0], -p * o[1] + (1 - p) * t[1])


def judge_direction(c, got, want, mech, *detail):
    l = math.hypot(*want)
    if not l > 1e-9:
        return False         # no direction is defined
    c.close(got, (want[0] / l, want[1] / l), mech, rtol=1e-9,
            atol=1e-9 / min(1.0, l), detail=detail)
    return True


def distances(c, n, m, radius):
    r = c.rng
    d = -c.np.uniform(-.5 * radius, 2.5 * radius, (n, m))
    for _ in range(n * m // 4):
        d[r.randrange(n), r.randrange(m)] = \
            r.choice([-radius, 0.0, radius, -radius * .999999, -1e-9, 1.0])
    return d


def parameters(r):
    return r.choice([.5, 1.0, r.uniform(.05, 3)]), \
        r.choice([.3, .1, .5, .9, r.uniform(.01, .99)])


@section('merge', quick=600, thorough=20000)
def merge(c):
    r = c.rng
    n, m = r.randint(1, 12), r.randint(1, 12)
    radius, strength = parameters(r)
    d = distances(c, n, m, radius)
    o, t = unit_map(c, n, m), unit_map(c, n, m)
    if r.random() < .3:      # targets behind obstacles cancel out or agree
        s = r.choice([1, -1])
        t = (s * o[0], s * o[1])
    keep = [x.copy() for x in (d, o[0], o[1], t[0], t[1])]
    c.note('radius', radius, 'strength', strength)
    out = c.call('merge', O.obstacle_handling, d, o, t, radius, strength)
    for x, y in zip(keep, (d, o[0], o[1], t[0], t[1])):
        c.check(np.array_equal(x, y), 'merge:inputs')
    c.equal(len(out), 2, 'merge:two')
    near = 0
    for i in range(n):
        for j in range(m):
            want = blend(-d[i, j], (o[0][i, j], o[1][i, j]),
                         (t[0][i, j], t[1][i, j]), radius, strength)
            got = (float(out[0][i, j]), float(out[1][i, j]))
            if judge_direction(c, got, want, 'merge:cell', 'distance',
                               -d[i, j], 'radius', radius, 'strength',
                               strength):
                c.check(abs(math.hypot(*got) - 1) < 1e-9, 'merge:unit', got)
            near += bool(0 < -d[i, j] < radius)
            c.count('cells')
    c.count('near cells', near)
    if 0 < near < n * m:
        c.nontrivial(n, m, near, radius, strength)


@section('agents', quick=600, thorough=20000)
def per_agent(c):
    r = c.rng
    n, m = r.randint(1, 10), r.randint(1, 10)
    size = r.randint(1, 12)
    radius, strength = parameters(r)
    d = distances(c, n, m, radius)
    o = unit_map(c, n, m)
    a = c.np.uniform(-math.pi, math.pi, size)
    t = np.stack((np.cos(a), np.sin(a)), axis=1)
    out_of = r.random() < .6
    lo, hi = (-3, 4) if out_of else (0, 0)
    idx = np.array([[r.randint(lo, n - 1 + hi), r.randint(lo, m - 1 + hi)]
                    for _ in range(size)], dtype=np.int64)
    keep = [x.copy() for x in (d, o[0], o[1], t, idx)]
    out = c.call('agents', O.obstacle_handling_continuous, d, o, t, idx,
                 radius, strength)
    for x, y in zip(keep, (d, o[0], o[1], t, idx)):
        c.check(np.array_equal(x, y), 'agents:inputs')
    c.equal(np.shape(out), (size, 2), 'agents:shape')
    near = 0
    for k in range(size):
        i, j = int(idx[k, 0]), int(idx[k, 1])
        got = (float(out[k, 0]), float(out[k, 1]))
        if not (0 <= i < n and 0 <= j < m):
            c.close(got, t[k], 'agents:outside', atol=1e-9,
                    detail=('index', (i, j), 'of', (n, m)))
            c.count('outside')
            continue
        want = blend(-d[i, j], (o[0][i, j], o[1][i, j]), tuple(t[k]), radius,
                     strength)
        judge_direction(c, got, want, 'agents:direction', 'distance',
                        -d[i, j], 'radius', radius, 'strength', strength)
        near += bool(0 < -d[i, j] < radius)
    c.count('near agents', near)
    if near:
        c.nontrivial(n, m, size, near, out_of)


@section('lookup', quick=400, thorough=10000)
def lookup(c):
    r = c.rng
    n, m = r.randint(1, 9), r.randint(1, 9)
    x, y = unit_map(c, n, m)
    undefined = set()
    if r.random() < .5:      # no direction, or half of one
        for _ in range(r.randint(1, 4)):
            i, j, k = r.randrange(n), r.randrange(m), r.randrange(3)
            if k != 1:
                x[i, j] = np.nan
            if k != 0:
                y[i, j] = np.nan
            undefined.add((i, j))
    size = r.randint(0, 15)
    idx = np.array([[r.randint(-2, n + 1), r.randint(-2, m + 1)]
                    for _ in range(size)], dtype=np.int64).reshape(-1, 2)
    defaults = c.np.uniform(-1, 1, (size, 2))
    keep = [v.copy() for v in (idx, x, y, defaults)]
    out = c.call('lookup', N.getdefault, idx, (x, y), defaults)
    for u, v in zip(keep, (idx, x, y, defaults)):
        c.check(np.array_equal(u, v, equal_nan=True), 'lookup:inputs')
    c.equal(np.shape(out), (size, 2), 'lookup:shape')
    ins = 0
    for k in range(size):
        i, j = idx[k]
        inn = 0 <= i < n and 0 <= j < m and (i, j) not in undefined
        want = (x[i, j], y[i, j]) if inn else tuple(defaults[k])
        c.equal((float(out[k, 0]), float(out[k, 1])),
                (float(want[0]), float(want[1])), 'lookup:value',
                'index', (int(i), int(j)), 'of', (n, m),
                'undefined', sorted(undefined))
        ins += inn
    c.count('inside', ins)
    if 0 < ins < size:
        c.nontrivial(n, m, size, ins)


def scene(c, ntargets, none=False, **kw):
    r = c.rng
    step = r.choice([.1, .25, .5, r.uniform(.08, .6)])
    radius = step * r.choice([2.0, 3.0, r.uniform(1.5, 4)])
    kw.setdefault('cells', (16, 30))
    s = make(c, step=step, nobs=(0, 0) if none else (1, 3), clear=4.5,
             gap=radius, ntargets=ntargets, **kw)
    s.radius = radius
    s.strength = r.choice([.3, .1, .5, r.uniform(.05, .9)])
    c.note('step', step, 'radius', radius, 'strength', s.strength, 'domain',
           s.ring, 'targets', s.targets, 'obstacles', s.obstacles)
    return s


def as_field(s):
    return Field(domain=s.domain, targets=[to_shapely(t) for t in s.targets],
                 obstacles=to_shapely(s.obstacles) if s.obstacles else None)


def plain(x):
    return np.array(np.ma.filled(np.ma.asarray(x), np.nan), dtype=float)


def raw(x):
    """Values also beneath masks, as compiled code reads them."""
    return np.array(np.ma.getdata(x), dtype=float)


@section('static', quick=70, thorough=800, weight=2.0)
def static(c):
    """The combination of shortest path and obstacle handling."""
    r = c.rng
    s = scene(c, r.choice([1, 1, 2]), none=r.random() < .15)
    target = to_shapely([p for t in s.targets for p in t])
    obs = to_shapely(s.obstacles) if s.obstacles else None
    mg, dmap, dirs = c.call('static', N.static_potential, s.domain, target,
                            obs, s.step, s.radius, s.strength)
    want_mg = Q.meshgrid(s.step, *s.domain.bounds)
    c.equal(tuple(mg.shape), tuple(want_mg.shape), 'static:grid')
    c.close(mg.step, s.step, 'static:grid')
    tm, td = Q.shortest_path(want_mg, s.domain, target, obs, s.radius)
    c.check(np.array_equal(np.ma.getmaskarray(td), np.ma.getmaskarray(dmap)),
            'static:distance')
    c.close(np.ma.filled(dmap, 0), np.ma.filled(td, 0), 'static:distance',
            atol=1e-9)
    om = None
    if obs is not None:
        om, od = O.direction_map_obstacles(want_mg, obs)
        od, om = raw(od), (raw(om[0]), raw(om[1]))
    tm = (raw(tm[0]), raw(tm[1]))
    gx, gy = plain(dirs[0]), plain(dirs[1])
    near = 0
    for i in range(mg.shape[0]):
        for j in range(mg.shape[1]):
            t = (tm[0][i, j], tm[1][i, j])
            if obs is None:
                want = t
            else:
                want = blend(-od[i, j], (om[0][i, j], om[1][i, j]), t,
                             s.radius, s.strength)
                near += bool(0 < -od[i, j] < s.radius)
            p = (float(mg.values[0][i, j]), float(mg.values[1][i, j]))
            if not all(map(math.isfinite, want)) or \
                    inside(p, s.obstacles) or (s.obstacles and
                    boundary_distance(p, s.obstacles) < 2.2 * s.step):
                continue
            judge_direction(c, (gx[i, j], gy[i, j]), want, 'static:cell',
                            'at', p)
            c.count('cells')
    # walks never run into an obstacle
    walks = 0
    for _ in range(6 if s.obstacles else 0):
        p = random_point(c, s, s.step)
        if distance_to(p, s.obstacles) < 1.6 * s.step:
            continue
        start = p
        for k in range(150):
            j, i = (int(v) for v in np.asarray(mg.indicer(np.array(p))))
            if not (0 <= i < mg.shape[0] and 0 <= j < mg.shape[1]):
                break
            e = (gx[i, j], gy[i, j])
            if not all(map(math.isfinite, e)) or \
                    distance_to(p, [q for t in s.targets for q in t]) < s.step:
                break
            q = (p[0] + .2 * s.step * e[0], p[1] + .2 * s.step * e[1])
            for w in s.obstacles:
                ok = not inside(q, [w]) and \
                    boundary_distance(q, [w]) > 1e-12
                c.check(ok, 'static:into-obstacle', 'from', start, 'at', q)
            p = q
            c.count('walked steps')
        walks += 1
    c.count('walks', walks)
    if near or obs is None:
        c.nontrivial(near, walks, s.step, s.radius, s.strength)


@section('node', quick=120, thorough=1200, weight=2.0)
def node(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    many = r.random() < .1
    if many:
        s = scene(c, r.choice([4, 5, 6]), none=True, cells=(30, 40),
                  target_kinds=('line', 'edge'))
        c.count('scenes of four and more targets')
    else:
        s = scene(c, r.choice([1, 2, 2, 3]), none=r.random() < .2,
                  cells=(14, 24))
    if r.random() < .15:
        s.radius = s.step * r.uniform(.3, 1)
    if r.random() < .15:
        s.strength = r.choice([.99, r.uniform(.9, 1), .02, 0.0, 1.0])
    sim = MultiAgentSimulation()
    sim.field = as_field(s)
    n = 20 if many else r.choice([1, 3, 8])
    sim.agents = make_agents(c, model, n)
    arr = sim.agents.array
    flags(r, arr)
    logic = c.call('construct', Navigation, sim, step=s.step, radius=s.radius,
                   strength=s.strength)
    def all_maps():
        return {k: N.static_potential(
            s.domain, to_shapely(t), to_shapely(s.obstacles)
            if s.obstacles else None, s.step, s.radius, s.strength)
            for k, t in enumerate(s.targets)}
    maps = all_maps()
    kinds = set()
    for turn in range(3):
        if turn == 2 and not many and r.random() < .35:
            # the surroundings change between two updates
            how = r.choice(['targets', 'walls', 'field'])
            if how != 'walls':
                s.targets = s.targets[::-1]
            if how != 'targets':
                s.obstacles = []
            if how == 'targets':
                sim.field.targets = as_field(s).targets
            elif how == 'walls':
                sim.field.obstacles = None
            else:
                sim.field = as_field(s)
            maps = all_maps()
            c.count('changed ' + how)
        for g in arr:
            g['target'] = r.randint(-1, len(s.targets) - 1)
            a = r.uniform(-3, 3)
            g['target_direction'] = r.choice([(math.cos(a), math.sin(a)),
                                              (0.0, 0.0)])
            if r.random() < .75:
                g['position'] = random_point(c, s)
            else:
                g['position'] = r.choice([
                    (s.o[0] - r.uniform(.01, 3) * s.step,
                     s.o[1] + r.uniform(0, 1) * s.h),
                    (s.o[0] + r.uniform(0, 1) * s.w,
                     s.o[1] - r.uniform(.01, 3) * s.step),
                    (s.o[0] + s.w + r.uniform(2.1, 9) * s.step, s.o[1]),
                    (s.o[0], s.o[1] + s.h + r.uniform(2.1, 9) * s.step),
                    (s.o[0] - 1e3, s.o[1] + 1e3)])
            g['active'] = r.random() < .8
        before = snapshot(arr)
        c.call('Navigation.update', logic.update)
        c.check(set(diff_fields(before, arr)) <= {'target_direction'},
                'node:other-attribute', diff_fields(before, arr))
        for g, b in zip(arr, before):
            k = int(b['target'])
            old = tuple(float(v) for v in b['target_direction'])
            new = tuple(float(v) for v in g['target_direction'])
            if k < 0:
                c.equal(new, old, 'node:no-target')
                kinds.add('none')
                continue
            mg, _, dirs = maps[k]
            t = [(float(b['position'][a]) - s.o[a]) / s.step for a in (0, 1)]
            if any(abs(v - round(v)) < 1e-6 for v in t):
                continue     # either side of a cell's border
            j, i = (int(math.floor(v)) for v in t)
            if not (0 <= i < mg.shape[0] and 0 <= j < mg.shape[1]):
                c.equal(new, old, 'node:outside', 'at', tuple(b['position']))
                kinds.add('outside')
                continue
            p = tuple(float(v) for v in b['position'])
            c.check(all(map(math.isfinite, new)), 'node:finite', 'at', p,
                    'target', k, 'direction', new)
            want = (plain(dirs[0])[i, j], plain(dirs[1])[i, j])
            if not all(map(math.isfinite, want)):
                c.equal(new, old, 'node:undefined', 'at', p)
                kinds.add('undefined')
                continue
            c.close(new, want, 'node:direction', atol=1e-9,
                    detail=('at', p, 'target', k))
            kinds.add(k)
    for k in kinds:
        c.count('agents %s' % (k if isinstance(k, str) else 'of a target'))
    if len(kinds) > 1:
        c.nontrivial(model, n, sorted(map(str, kinds)), s.step)
