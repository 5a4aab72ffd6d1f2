"""Random domains and targets (convex, star shaped, both orientations, lines
among the targets, overlapping targets) and agents that walk, jump and return,
some inactive from the beginning, driven by the nodes alone and inside of whole
iterations. Monitors keep their own sets of agents inside and of agents that
have been inside (ray casting, probes on borders excluded) and compare states
and counts after every update; everything else keeps its bytes. Agents outside
the domain are also paired with agents inside, to see whether the logic uses
them. Non-trivial: agents leave and return, targets reached by some agents."""
import math

import numpy as np
from shapely.geometry import LineString, Polygon

from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import Adjusting, AgentAgentInteractions, \
    InsideDomain, Integrator, Reset, TargetReached
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from exact import crossing_number, ring_distance
from geoms import rect, star
from harness import section
from sims import diff_fields, make_agents, snapshot

RULE = __doc__


def ring(c, centre=(0.0, 0.0), size=6.0):
    r = c.rng
    k = r.randrange(4)
    if k == 0:
        q = [(-size, -size), (size, -size), (size, size), (-size, size)]
        q = [(x + centre[0], y + centre[1]) for x, y in q]
    elif k == 1:             # a notch
        q = [(-1, -1), (1, -1), (1, 1), (.1, 1), (0, -.4), (-.1, 1), (-1, 1)]
        q = [(size * x + centre[0], size * y + centre[1]) for x, y in q]
    else:
        q = star(c, centre, size, n=r.randint(3, 9))
    if r.random() < .5:
        q = q[::-1]
    return q


def move(c, arr, size, places):
    r = c.rng
    for g in arr:
        k = r.randrange(4)
        if k == 0:
            g['position'] = (r.uniform(-1.5, 1.5) * size,
                             r.uniform(-1.5, 1.5) * size)
        elif k == 1:
            g['position'] = tuple(float(v) + r.uniform(-.5, .5)
                                  for v in g['position'])
        elif k == 2 and places and r.random() < .5:    # next to an edge
            i = r.randrange(len(places))
            (x, y), (u, v) = places[i - 1], places[i]
            t, w = r.random(), r.choice([1, -1]) * 10 ** r.uniform(-5, -1)
            h = math.hypot(u - x, v - y) or 1.0
            g['position'] = (x + t * (u - x) - w * (v - y) / h,
                             y + t * (v - y) + w * (u - x) / h)
        elif k == 2 and places:
            x, y = r.choice(places)
            g['position'] = (x + r.uniform(-.3, .3), y + r.uniform(-.3, .3))


def inside(p, q):
    """None on the border."""
    if ring_distance(p, q) < 1e-6:
        return None
    return crossing_number(p, q)


def positions(arr):
    return [(float(x), float(y)) for x, y in arr['position']]


@section('domain', quick=400, thorough=8000)
def domain(c):
    r = c.rng
    q = ring(c)
    model = r.choice(['circular', 'three_circle'])
    sim = MultiAgentSimulation()
    sim.field = Field(domain=Polygon(q))
    n = r.choice([1, 3, 10]) if r.random() < .96 else 40
    sim.agents = make_agents(c, model, 600 if c.index == 9 else n)
    arr = sim.agents.array
    for g in arr:
        g['active'] = r.random() < .7
    node = c.call('construct', InsideDomain, sim)
    history = [set()]
    left = back = 0
    for t in range(r.choice([1, 4, 10])):
        move(c, arr, 6.0, q)
        where = [inside(p, q) for p in positions(arr)]
        if None in where:
            continue
        before = snapshot(arr)
        c.call('InsideDomain.update', node.update)
        c.check(set(diff_fields(before, arr)) <= {'active'},
                'domain:other-attribute', diff_fields(before, arr))
        for k, w in enumerate(where):
            c.equal(bool(arr[k]['active']), w, 'domain:active', 'agent', k,
                    'at', tuple(arr[k]['position']), 'domain', q)
        c.equal(int(sim.data['inactive']), where.count(False),
                'domain:count', 'after update', t)
        ins = {k for k, w in enumerate(where) if w}
        left += len(history[-1] - ins)
        if len(history) > 2:
            back += len((ins - history[-1]) & set.union(*history))
        history.append(ins)
        c.count('updates')
    c.count('left', left)
    c.count('returned', back)
    c.state('orientation', len(q), model)
    if len(history) > 1:
        c.nontrivial(model, len(arr), q[0], left, back)


@section('targets', quick=400, thorough=8000)
def targets(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([1, 2, 3, 5])
    rings, geo = {}, []
    for k in range(n):
        if r.random() < .25:
            geo.append(LineString([(r.uniform(-5, 5), r.uniform(-5, 5)),
                                   (r.uniform(5.5, 9), r.uniform(-5, 5))]))
            continue
        q = ring(c, (r.uniform(-4, 4), r.uniform(-4, 4)), r.uniform(.5, 4))
        rings[k] = q
        geo.append(Polygon(q))
    sim = MultiAgentSimulation()
    sim.field = Field(targets=geo)
    sim.agents = make_agents(c, model, r.choice([1, 3, 10]))
    arr = sim.agents.array
    node = c.call('construct', TargetReached, sim)
    reached = {k: set() for k in rings}
    places = [p for q in rings.values() for p in q]
    for k in rings:
        c.check('target_%d' % k in sim.data, 'targets:name', sorted(sim.data))
        c.equal(int(sim.data['target_%d' % k]), 0, 'targets:start')
    unclear = set()
    for t in range(r.choice([1, 4, 10])):
        move(c, arr, 6.0, places)
        before = snapshot(arr)
        c.call('TargetReached.update', node.update)
        c.check(set(diff_fields(before, arr)) <= {'target_reached'},
                'targets:other-attribute', diff_fields(before, arr))
        for k, q in rings.items():
            for i, p in enumerate(positions(arr)):
                w = inside(p, q)
                if w is None:
                    unclear.add(k)
                elif w:
                    reached[k].add(i)
            if k not in unclear:
                c.equal(int(sim.data['target_%d' % k]), len(reached[k]),
                        'targets:count', 'target', k, 'of', len(geo),
                        'after update', t, 'reached by', sorted(reached[k]))
        c.count('updates')
    for k in range(n):
        if k not in rings:
            c.check(not sim.data.get('target_%d' % k), 'targets:line')
    total = sum(map(len, reached.values()))
    c.count('reached', total)
    if total:
        c.nontrivial(model, n, len(arr), sorted(map(len, reached.values())),
                     places[0])


@section('whole', quick=60, thorough=1200)
def whole(c):
    """Agents walk out of the domain and through targets in whole updates."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    q = rect(c, 1.0, (-4.0, -4.0))
    sim = MultiAgentSimulation()
    t = [star(c, (r.uniform(-3, 3), r.uniform(-3, 3)), 2.0) for _ in range(2)]
    sim.field = Field(domain=Polygon(q), targets=[Polygon(z) for z in t])
    sim.agents = make_agents(c, model, r.choice([4, 9]), spread=1.2)
    arr = sim.agents.array
    arr['position'] -= 2.0
    if model == 'three_circle':
        arr['position_ls'] -= 2.0
        arr['position_rs'] -= 2.0
    for g in arr:
        a = r.uniform(-3, 3)
        g['target_direction'] = (math.cos(a), math.sin(a))
    tree = TargetReached(sim)
    dom, integ, adj, reset = InsideDomain(sim), Integrator(
        sim, dt_min=.05, dt_max=.05), Adjusting(sim), Reset(sim)
    sim.logic = reset << (tree << (dom << (integ << adj,),),)
    reached = [set(), set()]
    gone = 0
    unclear = False
    for k in range(r.choice([30, 60])):
        if k % 15 == 14:     # turn around
            arr['target_direction'] *= -1
        sim.update()
        where = [inside(p, q) for p in positions(arr)]
        if None in where:
            unclear = True
        else:
            got = [bool(v) for v in arr['active']]
            c.equal(got, where, 'whole:active', 'iteration', k)
            c.equal(int(sim.data['inactive']), where.count(False),
                    'whole:count', 'iteration', k)
            gone = max(gone, where.count(False))
        for j, z in enumerate(t):
            w = [inside(p, z) for p in positions(arr)]
            if None in w:
                unclear = True
            reached[j] |= {i for i, v in enumerate(w) if v}
            if not unclear:
                c.equal(int(sim.data['target_%d' % j]), len(reached[j]),
                        'whole:target', 'iteration', k)
        c.count('iterations')
    if gone:
        c.nontrivial(model, len(arr), gone, list(map(len, reached)))


@section('outsiders', quick=60, thorough=600)
def outsiders(c):
    """Agents outside of the domain are not used by the logic."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    sim = MultiAgentSimulation()
    sim.field = Field(domain=Polygon([(-5, -5), (0, -5), (0, 5), (-5, 5)]))
    d = r.uniform(.15, .4)
    y = r.uniform(-3, 3)
    sim.agents = make_agents(c, model, 2, positions=[
        np.array((-3.0, y)), np.array((3.0, y))])
    arr = sim.agents.array
    for k, x in ((0, -.5 * d), (1, .5 * d)):
        g = arr[k]
        move_by = x - float(g['position'][0])
        for name in ('position', 'position_ls', 'position_rs'):
            if name in arr.dtype.names:
                g[name][0] += move_by
        g['target_velocity'] = 1.25
    c.call('InsideDomain.update', InsideDomain(sim).update)
    c.equal([bool(v) for v in arr['active']], [True, False],
            'outsiders:active')
    c.nontrivial(model, d, y)
    arr['force'] = 0
    AgentAgentInteractions(sim).update()
    if float(np.abs(arr[0]['force']).max()) > 0:
        c.fail('outsiders:interact', 'an inactive agent at %r acts on the '
               'agent at %r with %r' % (tuple(arr[1]['position']),
                                        tuple(arr[0]['position']),
                                        tuple(arr[0]['force'])))
