"""Fields that are built, refused, changed and queried in random order: valid,
invalid and empty geometry, spawns (also not convex, with holes) with obstacles
inside, outside and across them, histories of assigning, appending and removing
domain, obstacles and targets between queries of grids and maps. Monitors:
accepted and kept values, the convex hull against an own hull of all
coordinates, every sample against own distances to spawn and obstacles, every
returned grid and map against a new field of the present geometry that was never
queried before. Non-trivial: obstacles that take away a part of the spawn,
queries after changes."""
import inspect
import itertools
import math

import numpy as np
from shapely.geometry import (GeometryCollection, LineString, MultiLineString,
                              Point, Polygon)
from traitlets import TraitError

from crowddynamics.core.geometry import union
from crowddynamics.core.steering.obstacle_handling import \
    direction_map_obstacles, obstacle_handling
from crowddynamics.core.steering.quickest_path import meshgrid, shortest_path
from crowddynamics.exceptions import CrowdDynamicsException, InvalidType, \
    ValidationError
from crowddynamics.simulation.field import Field
from exact import cross, shoelace, sub
from geoms import anygeom, coord, linestring, polygon, star
from gridways import boundary_distance, distance_to, inside
from harness import section
import scenes

RULE = __doc__


def bad_polygon(c):
    x, y = coord(c), coord(c)
    s = c.rng.uniform(1, 9)
    k = c.rng.randrange(4)
    if k == 0:       # bow tie
        return Polygon([(x, y), (x + s, y + s), (x + s, y), (x, y + s)])
    if k == 1:       # hole outside
        q = 2 * s + x
        return Polygon([(x, y), (x + s, y), (x + s, y + s), (x, y + s)],
                       [[(q, y), (q + s, y), (q + s, y + s)]])
    if k == 2:       # hole across the border
        return Polygon([(x, y), (x + s, y), (x + s, y + s), (x, y + s)],
                       [[(x + s / 2, y + s / 3), (x + 2 * s, y + s / 3),
                         (x + 2 * s, y + s / 2), (x + s / 2, y + s / 2)]])
    return Polygon([(x, y), (x + s, y), (x + s, y + s), (x, y + s), (x, y),
                    (x - s, y), (x - s, y - s), (x, y - s), (x + s, y + 2 * s)])


@section('accept', quick=600, thorough=25000)
def accept(c):
    r = c.rng
    f = Field()
    for name in ('domain', 'obstacles'):
        c.check(getattr(f, name) is None, 'accept:default')
    now = {'domain': None, 'obstacles': None}
    refused = 0
    for _ in range(r.randint(2, 7)):
        name = r.choice(['domain', 'obstacles'])
        k = r.randrange(6)
        if k < 3:
            v = polygon(c) if name == 'domain' else anygeom(c)
            if not v.is_valid:
                c.skip('not valid')
            setattr(f, name, v)
            now[name] = v
        elif k == 3:
            setattr(f, name, None)
            now[name] = None
        else:
            if k == 4:
                v, err = bad_polygon(c), ValidationError
            elif name == 'domain':
                v, err = r.choice([
                    (Polygon(), ValidationError), (3, TraitError),
                    (LineString([(0, 0), (1, 1)]), TraitError),
                    ([(0, 0), (1, 0), (1, 1)], TraitError),
                    (Point(0, 0), TraitError)])
            else:
                v, err = r.choice([
                    (Polygon(), ValidationError), ('x', TraitError),
                    (GeometryCollection([]), ValidationError),
                    ([LineString([(0, 0), (1, 1)])], TraitError)])
            refused += 1
            c.raises(err, 'accept:accepted', setattr, f, name, v)
            # constructors refuse as well
            c.raises(err, 'accept:constructed', Field, **{name: v})
        for n in now:
            c.check(getattr(f, n) is now[n], 'accept:value', n, k)
    ts = [anygeom(c) for _ in range(r.randint(0, 3))]
    f.targets = ts
    c.check(len(f.targets) == len(ts) and
            all(a is b for a, b in zip(f.targets, ts)), 'accept:targets')
    c.raises(TraitError, 'accept:targets-accepted', setattr, f, 'targets',
             ts + [r.choice([3, None, 'x', (0, 1)])])
    c.raises(TraitError, 'accept:spawns-accepted', setattr, f, 'spawns',
             r.choice([[5], [None], 7, ['x']]))
    c.check(len(f.targets) == len(ts), 'accept:targets-kept')
    c.count('refused', refused)
    if refused:
        c.nontrivial(refused, now['domain'] is None, now['obstacles'] is None,
                     len(ts))


def coordinates(g):
    if isinstance(g, Polygon):
        return [tuple(p[:2]) for p in g.exterior.coords]
    if hasattr(g, 'geoms'):
        return [p for q in g.geoms for p in coordinates(q)]
    return [tuple(p[:2]) for p in g.coords]


def own_hull(points):
    p = sorted(set(points))

    def half(seq):
        out = []
        for q in seq:
            while len(out) > 1 and cross(sub(out[-1], out[-2]),
                                         sub(q, out[-2])) <= 0:
                out.pop()
            out.append(q)
        return out[:-1]
    return half(p) + half(p[::-1])


@section('hull', quick=200, thorough=8000)
def hull(c):
    r = c.rng
    kw = {'targets': [anygeom(c) for _ in range(r.randint(0, 3))],
          'spawns': [polygon(c) for _ in range(r.randint(0, 2))]}
    if r.random() < .6:
        kw['obstacles'] = anygeom(c)
    if r.random() < .5:
        kw['domain'] = polygon(c)
    f = Field(**kw)
    pts = [p for g in kw['targets'] + kw['spawns'] +
           [kw.get('obstacles', Point())] if not g.is_empty
           for p in coordinates(g)]
    if len(set(pts)) < 3:
        c.skip('few points')
    want = own_hull(pts)
    if abs(shoelace(want)) < 1:
        c.skip('flat')
    got = c.call('hull', f.convex_hull)
    c.check(isinstance(got, Polygon), 'hull:type', got)
    # overlays may move points by a rounding
    have = [tuple(p[:2]) for p in got.exterior.coords][:-1]
    c.close(abs(shoelace(have)), abs(shoelace(want)), 'hull:area', rtol=1e-5)
    h, w = [('poly', have, [])], [('poly', want, [])]
    for p in pts:
        c.check(distance_to(p, h) < 1e-5, 'hull:left out', p)
    for p in have:
        c.check(distance_to(p, w) < 1e-5, 'hull:too much', p)
    c.count('points', len(pts))
    if len(kw['targets']) + len(kw['spawns']) > 1:
        c.nontrivial(len(pts), want[0])


def spawn(c):
    """(plain, corners) of a spawn around the origin"""
    r = c.rng
    k = r.randrange(6)
    if k == 5:       # a comb
        n, w = r.randint(5, 30), 10 ** r.uniform(-1.7, -.5)
        x0, y0, h = -n * w, r.uniform(-3, 0), r.uniform(1, 4)
        ring = [(x0, y0)]
        for i in range(n):       # a tooth, and the gap before the next one
            x = x0 + 2 * i * w
            ring += [(x, y0 + h), (x + w, y0 + h), (x + w, y0 + .1 * h),
                     (x + 2 * w, y0 + .1 * h)]
        ring = ring[:-1]
        ring[-1] = (ring[-1][0], y0)
    elif k < 2:
        w, h = r.uniform(2, 8), r.uniform(2, 8)
        if r.random() < .4:
            w, h = r.uniform(.6, 2), r.uniform(.6, 2)
        ring = [(-w, -h), (w, -h), (w, h), (-w, h)]
    elif k == 2:
        ring = star(c, (0.0, 0.0), 6.0, lo=.3)
    elif k == 3:     # an angle
        a, b = r.uniform(1, 3), r.uniform(5, 8)
        ring = [(0, 0), (b, 0), (b, a), (a, a), (a, b), (0, b)]
    else:
        w = r.uniform(3, 6)
        ring = [(-w, -w), (w, -w), (w, w), (-w, w)]
        return [('poly', ring, [star(c, (.5, .3), w * .7, lo=.6)])]
    return [('poly', [(float(x), float(y)) for x, y in ring], [])]


@section('sample', quick=160, thorough=6000, weight=2.0)
def sample(c):
    r = c.rng
    s = spawn(c)
    obstacles = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        x, y = r.uniform(-6, 6), r.uniform(-6, 6)
        k = r.randrange(4)
        if abs(s[0][1][0][0]) < 2.1:     # a small room
            k = r.choice([3, 3, 3, k])
        if k == 0:
            obstacles.append(('line', [(x, y), (x + r.uniform(-6, 6),
                                                y + r.uniform(-6, 6))]))
        elif k == 1:     # right across
            a = r.uniform(0, math.pi)
            u, v = 20 * math.cos(a), 20 * math.sin(a)
            obstacles.append(('line', [(x / 3 - u, y / 3 - v),
                                       (x / 3 + u, y / 3 + v)]))
        elif k == 2:
            obstacles.append(('poly', star(c, (x, y), r.uniform(.5, 3)), []))
        else:            # the border of the spawn
            ring = s[0][1]
            obstacles.append(('line', ring + ring[:1]))
    radius = r.choice([None, 0.0, .1, .3, .3, r.uniform(.05, .8)])
    if radius == 0.0 and any(p[0] == 'line' for p in obstacles):
        radius = .2
    kw = {'spawns': [polygon(c)] * r.randint(0, 2)}
    index = len(kw['spawns'])
    kw['spawns'] = kw['spawns'] + [scenes.to_shapely(s)] + \
        [polygon(c)] * r.randint(0, 1)
    if obstacles:
        kw['obstacles'] = scenes.to_shapely(obstacles)
        if not kw['obstacles'].is_valid:
            c.skip('obstacles')
    f = Field(**kw)
    real = .3 if radius is None else radius

    def room(p, margin):
        return inside(p, s) and all(distance_to(p, [o]) > margin
                                    for o in obstacles)
    # places of the spawn that are free for sure, on an own lattice
    q = [(i * .25, j * .25) for i in range(-33, 34) for j in range(-33, 34)]
    spot = [p for p in q if inside(p, s)]
    free = [p for p in spot if room(p, 1.02 * real + .01)]
    if len(free) < .1 * len(spot) or len(free) < 12:
        c.skip('no room')
    args = (index,) if radius is None else (index, radius)
    gen = c.call('sample', f.sample_spawn, *args)
    got = []
    n = 250
    for p in itertools.islice(gen, n):
        p = (float(p[0]), float(p[1]))
        c.check(inside(p, s) or boundary_distance(p, s) < 1e-5,
                'sample:outside', p)
        for o in obstacles:
            # buffers are polygons inside of the true ones
            c.check(distance_to(p, [o]) >= .99 * real - 1e-5,
                    'sample:obstacle', p, distance_to(p, [o]), real)
        got.append(p)
    c.check(len(got) == n and len(set(got)) == n, 'sample:number', len(got))
    if c.index % 20 == 3:        # there is no end to them
        more = sum(1 for _ in itertools.islice(gen, 2500))
        c.equal(more, 2500, 'sample:ends')
    # quarters of the free places all get their samples
    for axis in (0, 1):
        v = sorted(p[axis] for p in free)
        mid = v[len(v) // 2]
        for side in (1, -1):
            share = sum(side * (x - mid) > 0 for x in v) / float(len(v))
            if share > .3:       # (.85)^250 < 1e-17
                c.check(any(side * (p[axis] - mid) > -.25 for p in got),
                        'sample:missed')
    # and so do the free places next to the obstacles
    x0, y0, x1, y1 = kw['spawns'][index].bounds
    if obstacles and real > .15 and x1 - x0 < 4:
        lattice = [(x0 + (i + .5) / 60 * (x1 - x0),
                    y0 + (j + .5) / 60 * (y1 - y0))
                   for i in range(60) for j in range(60)]
        near = far = 0
        for p in lattice:
            if inside(p, s):
                d = min(distance_to(p, [o]) for o in obstacles)
                far += d > 1.02 * real
                near += 1.02 * real < d < 1.02 * real + .06
        if near > .12 * far:         # (.88)^250 < 1e-13
            c.check(any(distance_to(p, [o]) < 1.02 * real + .06
                        for p in got for o in obstacles),
                    'sample:too far', real)
            c.count('closeness judged')
    c.count('samples', n)
    c.state('obstacles', len(obstacles), len(s[0][2]))
    if len(free) < .9 * len(spot):
        c.nontrivial(len(free), len(spot), real, got[0])


def same(c, a, b, mech):
    """Maps that are plain or masked arrays, pairs of them, or grids."""
    if hasattr(a, 'indicer') or (isinstance(a, tuple) and
                                 isinstance(b, tuple)):
        if hasattr(a, 'indicer'):
            c.check((a.shape, a.step, a.bounds) == (b.shape, b.step, b.bounds),
                    mech, (a.shape, a.step, a.bounds),
                    (b.shape, b.step, b.bounds))
            a, b = a.values, b.values
        c.equal(len(a), len(b), mech)
        for x, y in zip(a, b):
            same(c, x, y, mech)
        return
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    c.check(ma.shape == mb.shape and np.array_equal(ma, mb), mech,
            ma.shape, mb.shape)
    x, y = np.ma.filled(a, 0.0), np.ma.filled(b, 0.0)
    c.check(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True), mech)


def spell(g):
    return None if g is None else g.wkt[:120]


@section('fresh', quick=100, thorough=1800, weight=3.0)
def fresh(c):
    r = c.rng
    stock = [scenes.make(c, step=.5, cells=(8, 16), nobs=(1, 3),
                         ntargets=r.choice([1, 2, 2, 5])) for _ in range(2)]
    place = r.choice(stock)
    obstacles = [scenes.to_shapely(s.obstacles) for s in stock
                 if s.obstacles] + [None]
    domains = [s.domain for s in stock]
    targets = [scenes.to_shapely(t) for t in place.targets]
    if any(o is not None and not o.is_valid for o in obstacles):
        c.skip('obstacles')
    f = Field(domain=place.domain, targets=r.choice([targets[:1], targets]),
              obstacles=scenes.to_shapely(place.obstacles)
              if place.obstacles else None)
    steps = [.5, .5, .75, .437]
    trace = []
    queried = changed = after = 0
    for _ in range(r.randint(4, 9)):
        k = r.randrange(10)
        if k == 0:
            f.obstacles = r.choice(obstacles)
        elif k == 1:
            f.domain = r.choice(domains)
        elif k == 2:
            f.targets = r.choice([targets, targets[:1], targets[::-1]])
        elif k == 3:
            f.targets.append(r.choice(targets))
        elif k == 4 and len(f.targets) > 1:
            del f.targets[r.randrange(len(f.targets))]
        elif k == 5 and r.random() < .5:
            f.targets[0] = r.choice(targets)
        elif k == 5:     # everything at once
            f.obstacles = r.choice(obstacles)
            f.domain = r.choice(domains)
            f.targets = r.choice([targets, targets[:1], targets[::-1]])
        if k < 6:
            trace.append(('change', k))
            changed += 1
            continue
        step = r.choice(steps)
        radius = r.choice([.5, 1.0, 1.0])
        strength = r.choice([.3, .3, .6])
        index = r.choice([0, len(f.targets) - 1, 'closest', np.int64(0)])
        q = r.choice(['meshgrid', 'shortest_path_target',
                      'direction_map_obstacles', 'navigation_to_target',
                      'navigation_to_target'])
        args = {'meshgrid': (step,), 'shortest_path_target':
                (step, index, radius), 'direction_map_obstacles': (step,),
                'navigation_to_target': (index, step, radius, strength)}[q]
        trace.append((q,) + args)
        c.note('history', trace, 'domain', spell(f.domain), 'obstacles',
               spell(f.obstacles), [spell(t) for t in f.targets])
        new = Field(domain=f.domain, obstacles=f.obstacles,
                    targets=list(f.targets))
        # what the parts of the library say about it
        grid = meshgrid(step, *f.domain.bounds)
        t = union(*f.targets) if isinstance(index, str) else f.targets[index]
        try:
            if q == 'meshgrid':
                parts = grid
            elif q == 'direction_map_obstacles':
                parts = direction_map_obstacles(grid, f.obstacles)
            else:
                parts = d, m = shortest_path(grid, f.domain, t, f.obstacles,
                                             radius)
                if q == 'navigation_to_target':
                    do, mo = direction_map_obstacles(grid, f.obstacles)
                    parts = grid, m, obstacle_handling(mo, do, d, radius,
                                                       strength)
        except Exception as e:       # e.g. a target out of the domain
            c.raises(type(e), 'fresh:refusal', getattr(f, q), *args)
            c.count('refused queries')
            continue
        # a field that was never asked before, and the one with a history
        want = c.call('fresh:' + q, getattr(new, q), *args)
        same(c, want, parts, 'fresh:' + q)
        k = r.choice([len(args), len(args), 0, r.randint(0, len(args))])
        names = list(inspect.signature(getattr(f, q)).parameters.values())
        if len(names) != len(args) or any(
                p.kind != p.POSITIONAL_OR_KEYWORD for p in names):
            k = len(args)
        got = c.call('fresh:' + q, getattr(f, q), *args[:k],
                     **{p.name: a for p, a in zip(names[k:], args[k:])})
        c.count('by keyword', k < len(args))
        same(c, got, want, 'fresh:' + q)
        queried += 1
        after += changed > 0
        c.count('queries')
        c.state('query', q, str(type(index).__name__))
    # refusals
    c.raises(InvalidType, 'fresh:index', f.shortest_path_target, .5,
             r.choice(['nearest', None, 1.5, (0,)]), 1.0)
    c.raises((CrowdDynamicsException, IndexError), 'fresh:range',
             f.navigation_to_target, len(f.targets) + 3, .5, 1.0, .3)
    c.raises(CrowdDynamicsException, 'fresh:no-targets',
             Field(domain=f.domain).navigation_to_target, 0, .5, 1.0, .3)
    c.raises(CrowdDynamicsException, 'fresh:no-domain',
             Field(targets=targets).navigation_to_target, 0, .5, 1.0, .3)
    if after > 1:
        c.nontrivial(str(trace))
