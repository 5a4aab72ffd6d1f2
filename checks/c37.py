"""Shipped fields and simulations, constructed with random parameters. The
geometry is read back from the objects and compared with the parameters: size,
width of the exits, everything inside the domain, and a flood fill over a fine
grid decides whether everybody can walk from where agents are placed to the
exits. Simulations are asked for their agents: numbers, places, targets, roles.
Non-trivial: parameters that are not the defaults."""
import math
from collections import deque

import numpy as np

from crowddynamics.examples import collective_motion, fields, \
    simulations, validation
from crowddynamics.simulation.agents import Circular, ThreeCircle, \
    NO_TARGET, is_model
from exact import dist, point_segment
from harness import section
from scenes import seg_seg

RULE = __doc__
TOL = 1e-9


def rings(geom):
    """Chains of points of a geometry."""
    if geom.geom_type == 'Polygon':
        return [list(geom.exterior.coords)] + [list(x.coords)
                                               for x in geom.interiors]
    if hasattr(geom, 'geoms'):
        return [x for g in geom.geoms for x in rings(g)]
    return [list(geom.coords)]


def edges(geom):
    return [] if geom is None else [e for x in rings(geom)
                                    for e in zip(x[:-1], x[1:])]


def inside(p, ring, margin=TOL):
    """In the polygon or on its boundary."""
    if min(point_segment(p, a, b) for a, b in zip(ring[:-1], ring[1:])) <= \
            margin:
        return True
    hit = False
    for (x0, y0), (x1, y1) in zip(ring[:-1], ring[1:]):
        if (y0 > p[1]) != (y1 > p[1]) and \
                p[0] < x0 + (p[1] - y0) * (x1 - x0) / (y1 - y0):
            hit = not hit
    return hit


def flood(bounds, walls, starts, step):
    """Nodes of a grid that can be walked to from the starting points."""
    x0, y0, x1, y1 = bounds
    n, m = int((x1 - x0) / step) + 1, int((y1 - y0) / step) + 1
    ox, oy = x0 + (x1 - x0 - (n - 1) * step) / 2, \
        y0 + (y1 - y0 - (m - 1) * step) / 2

    def at(k):
        return ox + k[0] * step, oy + k[1] * step

    def free(p, q):
        lo, hi = (min(p[0], q[0]), min(p[1], q[1])), \
            (max(p[0], q[0]), max(p[1], q[1]))
        for a, b in walls:
            if max(a[0], b[0]) < lo[0] - TOL or min(a[0], b[0]) > hi[0] + TOL \
                    or max(a[1], b[1]) < lo[1] - TOL or \
                    min(a[1], b[1]) > hi[1] + TOL:
                continue
            if seg_seg(p, q, a, b) <= TOL:
                return False
        return True
    seen = {k for k in [(i, j) for i in range(n) for j in range(m)]
            if any(dist(at(k), s) <= 1.5 * step and free(at(k), s)
                   for s in starts)}
    todo = deque(seen)
    while todo:
        i, j = todo.popleft()
        for k in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= k[0] < n and 0 <= k[1] < m and k not in seen and \
                    free(at((i, j)), at(k)):
                seen.add(k)
                todo.append(k)
    return [at(k) for k in seen], free


def number(r, lo, hi):
    return r.choice([float(r.randint(math.ceil(lo), int(hi))),
                     round(r.uniform(lo, hi), 2), r.uniform(lo, hi)])


def parameters(r, name):
    kw = {}
    if name != 'FourExitsField':
        kw.update(width=number(r, 6, 30), height=number(r, 6, 20))
    if name == 'HallwayField':
        kw['ratio'] = r.uniform(.1, .5)
    if name == 'Rounding':
        kw['ratio'] = r.uniform(.2, .8)
    if name == 'AvoidObstacle':
        kw.update(ratio_obs=r.uniform(.3, .8), exit_width=number(r, 1, 5))
    if name == 'RoomWithOneExit':
        kw.update(exit_width=number(r, .8, 4), exit_hall_width=number(r, 1, 4))
    if name == 'FourExitsField':
        kw['exit_width'] = number(r, 1, 9)
    if name == 'PillarInTheMiddle':
        kw['radius_pillar'] = r.uniform(.3, 2.5)
    return {k: v for k, v in kw.items() if r.random() < .85}


FIELDS = ['OutdoorField', 'HallwayField', 'Rounding', 'AvoidObstacle',
          'ClosedRoom', 'RoomWithOneExit', 'FourExitsField',
          'PillarInTheMiddle']
EXITS = dict(HallwayField=2, Rounding=1, AvoidObstacle=1, RoomWithOneExit=1,
             FourExitsField=4)


def judge(c, name, f):
    """One field against its own parameters."""
    d = f.domain
    c.check(d is not None and d.is_valid and not d.is_empty, 'domain', name)
    ring = list(d.exterior.coords)
    x0, y0, x1, y1 = d.bounds
    if name == 'FourExitsField':
        want = (100, 80)
    elif name == 'RoomWithOneExit':
        want = (f.width + f.exit_hall_width, f.height)
    else:
        want = (f.width, f.height)
    if name == 'PillarInTheMiddle':
        # known: half as wide and high as said, the pillar at its origin
        centre = f.obstacles.centroid
        c.check(not (abs(x1 - x0 - want[0] / 2) <= 1e-9 * want[0] and
                     abs(y1 - y0 - want[1] / 2) <= 1e-9 * want[1] and
                     dist((centre.x, centre.y), (0, 0)) <= 1e-9 and
                     not inside((0, 0), ring)),
                'pillar-in-the-middle:outside-of-half-domain',
                'domain', (x0, y0, x1, y1), 'pillar at', (centre.x, centre.y))
    c.close((x1 - x0, y1 - y0), want, 'size', rtol=1e-9, detail=name)
    for kind, geoms in (('obstacle', [f.obstacles] if f.obstacles else []),
                        ('target', f.targets), ('spawn', f.spawns)):
        for g in geoms:
            c.check(g.is_valid and not g.is_empty, 'valid', name, kind)
            for p in (p for x in rings(g) for p in x):
                c.check(inside(p, ring), 'outside-of-domain', name, kind, p)
    c.check(f.spawns, 'no-spawn', name)
    walls = edges(f.obstacles)
    c.equal(len(f.targets), EXITS.get(name, 0), 'targets', name)
    for k, t in enumerate(f.targets):
        (a, b), = edges(t)
        if name == 'HallwayField':
            want = f.height
        elif name == 'Rounding':
            want = f.height / 2
        else:
            want = f.exit_width
        c.close(dist(a, b), want, 'width-of-exit', rtol=1e-9,
                detail=(name, k))
        # nothing stands in the doorway
        m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        gap = min([point_segment(m, p, q) for p, q in walls] or [9e9])
        free = want / 2
        if name == 'AvoidObstacle':     # the obstacle may be nearer than that
            free = min(free, f.width * (1 - f.ratio_obs))
        c.check(gap >= free * (1 - 1e-9), 'exit-blocked', name, k, gap)
    if name == 'PillarInTheMiddle':
        m = ((x0 + x1) / 2, (y0 + y1) / 2)
        for p in (p for x in rings(f.obstacles) for p in x):
            c.close(dist(p, m), f.radius_pillar, 'pillar', rtol=1e-9)
    return walls


def way_out(c, name, f, walls):
    """Everybody can reach every exit."""
    if not f.targets:
        return
    narrow = min(dist(*edges(t)[0]) for t in f.targets)
    step = min(narrow / 2.2, (f.domain.bounds[3] - f.domain.bounds[1]) / 12)
    places = []
    for k in range(len(f.spawns)):
        gen = c.call('sample', f.sample_spawn, k)
        for _ in range(4):
            p = c.call('sample', next, gen)
            p = (float(p[0]), float(p[1]))
            c.check(inside(p, list(f.spawns[k].exterior.coords)),
                    'place-outside-of-spawn', name, k, p)
            gap = min([point_segment(p, a, b) for a, b in walls] or [9e9])
            c.check(gap >= .3 * .99, 'place-at-obstacle', name, k, p, gap)
            places.append(p)
    for k, t in enumerate(f.targets):
        (a, b), = edges(t)
        m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        # a step into the domain, off the line of the exit
        x0, y0, x1, y1 = f.domain.bounds
        n = (b[1] - a[1], a[0] - b[0])
        s = 1e-3 / math.hypot(*n)
        starts = [q for q in ((m[0] + s * n[0], m[1] + s * n[1]),
                              (m[0] - s * n[0], m[1] - s * n[1]))
                  if x0 < q[0] < x1 and y0 < q[1] < y1]
        c.equal(len(starts), 1, 'exit-not-at-edge', name, k)
        got, free = flood(f.domain.bounds, walls, starts, step)
        for p in places:
            c.check(any(dist(p, q) <= 2 * step and free(p, q) for q in got),
                    'no-way-out', name, 'exit', k, 'from', p)
        c.count('exits reached')


@section('fields', quick=64, thorough=1600, min_nontrivial=20)
def shipped_fields(c):
    r = c.rng
    name = FIELDS[c.index % len(FIELDS)]
    kw = parameters(r, name)
    c.note(name, kw)
    f = c.call('construct', getattr(fields, name), **kw)
    for k, v in kw.items():
        c.equal(getattr(f, k), v, 'parameter', name, k)
    walls = judge(c, name, f)
    if name in ('OutdoorField', 'HallwayField') and r.random() < .6:
        # these follow later changes
        for k, v in sorted(parameters(r, name).items(),
                           key=lambda x: r.random()):
            c.call('change', setattr, f, k, v)
            walls = judge(c, name, f)
            c.count('changed later')
    if name != 'FourExitsField' or r.random() < .3:
        way_out(c, name, f, walls)
    if kw:
        c.nontrivial(name, sorted(kw.items()))
    c.state('field', name, sorted(kw))


def roles(name, module, sim):
    """[(number, spawn, leader, follower, targets)] of the groups."""
    f = sim.field
    every = set(range(len(f.targets)))
    none = {NO_TARGET}
    if module is simulations:
        if name == 'Hallway':
            return [(sim.size // 2, 0, 0, 0, {1}), (sim.size // 2, 1, 0, 0,
                                                    {0})]
        return [(sim.size, 0, 0, 0, every or none)]
    if name == 'FourExitsFixedPlacing':
        return [(1, k + 1, 1, 0, {k}) for k in range(4)] + \
            [(sim.size_herding, 0, 0, 1, none)]
    spawn = [0, 0]
    if name == 'AvoidObstacle':
        spawn = [0, 1]
    if name == 'Outdoor':
        spawn = [None, 0]
    lead = none if name in ('Outdoor', 'ClosedRoom') else every
    return [(sim.size_leaders, spawn[0], 1, 0, lead),
            (sim.size_herding, spawn[1], 0, 1, none)]


SCENES = [(m, n) for m, names in (
    (simulations, ['Outdoor', 'Hallway', 'RoomWithOneExit',
                   'FourExitsRandomPlacing']),
    (collective_motion, ['Outdoor', 'Rounding', 'AvoidObstacle', 'ClosedRoom',
                         'FourExitsRandomPlacing', 'FourExitsFixedPlacing']))
    for n in names]


@section('simulations', quick=40, thorough=800, min_nontrivial=15, weight=2.0)
def shipped_simulations(c):
    r = c.rng
    module, name = SCENES[c.index % len(SCENES)]
    cls = getattr(module, name)
    own = cls.class_traits()
    kw = dict(agent_type=r.choice([Circular, ThreeCircle]))
    for k in own:
        if k.startswith('size'):
            lo = own[k].min or 0
            kw[k] = r.randint(lo, max(lo, min(12, own[k].max or 12)))
    if 'width' in own and r.random() < .8:
        kw['width'], kw['height'] = number(r, 15, 40), number(r, 10, 25)
    if 'exit_width' in own and r.random() < .8:
        kw['exit_width'] = number(r, 1, 5)
    if 'ratio' in own and r.random() < .7:
        kw['ratio'] = r.uniform(.2, .5)
    if 'exit_hall_width' in own and r.random() < .7:
        kw['exit_hall_width'] = number(r, 1, 3)
    if 'ratio_obs' in own and r.random() < .7:
        kw['ratio_obs'] = r.uniform(.3, .8)
    c.note(name, {k: str(v) for k, v in kw.items()})
    sim = c.call('construct', cls, **kw)
    f = c.call('field', lambda: sim.field)
    for k in ('width', 'height', 'exit_width', 'ratio', 'ratio_obs',
              'exit_hall_width'):
        if k in own and hasattr(f, k):
            c.equal(getattr(f, k), getattr(sim, k), 'field-parameter', name, k)
    agents = c.call('agents', lambda: sim.agents)
    arr = agents.array
    c.check(is_model(arr, {Circular: 'circular',
                           ThreeCircle: 'three_circle'}[kw['agent_type']]),
            'model', name)
    groups = roles(name, module, sim)
    c.equal(len(arr), sum(g[0] for g in groups), 'number-of-agents', name)
    k = 0
    for size, spawn, leader, follower, targets in groups:
        for rec in arr[k:k + size]:
            x = (float(rec['position'][0]), float(rec['position'][1]))
            if spawn is not None:
                c.check(inside(x, list(f.spawns[spawn].exterior.coords)),
                        'placed-outside-of-spawn', name, spawn, x)
            else:
                c.close(x, (sim.horizontal_ratio * sim.width,
                            sim.vertical_ratio * sim.height), 'place')
            if module is collective_motion:
                c.equal((int(rec['is_leader']), int(rec['is_follower'])),
                        (leader, follower), 'role', name)
            if name == 'RoomWithOneExit' or 'FourExits' in name or \
                    name in ('Hallway', 'Rounding', 'AvoidObstacle'):
                c.check(int(rec['target']) in targets, 'target', name,
                        int(rec['target']), targets)
            c.check(bool(rec['active']), 'active', name)
            e = rec['target_direction']
            n = math.hypot(e[0], e[1])
            c.check(n == 0 or abs(n - 1) < 1e-9, 'direction', name)
            c.count('agents')
        k += size
    names = [x.name for x in [sim.logic.root] + list(
        sim.logic.root.descendants)]
    c.equal(len(names), len(set(names)), 'logic', names)
    c.nontrivial(name, module.__name__, sorted(
        (k, str(v)) for k, v in kw.items()))
    c.state('scene', module.__name__, name)


@section('validation', quick=8, thorough=160, min_nontrivial=4, weight=2.0)
def shipped_validation(c):
    """The scenes the project validates itself with: one walks, two meet."""
    r = c.rng
    model = r.choice([Circular, ThreeCircle])
    two = c.index % 4 == 3
    cls = type('Scene', (validation.TestAgentInteraction if two else
                         validation.TestMovement,), dict(
        width=number(r, 15, 40), height=number(r, 10, 20),
        **(dict(start_pos2=(number(r, 3, 7), 0)) if two else {})))
    sim = c.call('construct', cls, agent_type=model)
    x0, y0, x1, y1 = sim.field.domain.bounds
    c.close((x1 - x0, y1 - y0), (cls.width, cls.height), 'size', rtol=1e-9)
    arr = sim.agents.array
    c.equal(len(arr), 2 if two else 1, 'number-of-agents', cls.__name__)
    start = [(0, 0), cls.start_pos2] if two else [(0, 0)]
    c.close(arr['position'], start, 'place', rtol=0, atol=1e-12)
    way = np.array([(1.0, 0.0), (-1.0, 0.0)][:len(arr)])
    until = 9 if two else r.uniform(1, 5)
    while sim.data['time_tot'] < until and sim.data['iterations'] < 1200:
        c.call('update', sim.update)
    t = float(sim.data['time_tot'])
    moved = sim.agents.array['position'] - np.array(start, float)
    if two:
        for k in range(2):
            c.check(float(moved[k] @ way[k]) >= 6.5, 'does-not-get-past', k,
                    moved[k], 'in', t)
    else:
        c.close(moved, t * way, 'walks-straight', rtol=1e-6, atol=1e-6)
    c.nontrivial(cls.__mro__[1].__name__, cls.width, cls.height)
    c.state('validation', cls.__mro__[1].__name__, model.__name__)
