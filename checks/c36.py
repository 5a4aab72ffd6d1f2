"""Laws of the crowd as a whole that need no formula: walls hold and people do
not walk through each other, two who meet get past, somebody who knows the exit gets there, and whole
simulations do not depend on where the scene lies, how it is turned or
mirrored, how the agents are numbered, or what happens out of reach. The same
scene is simulated twice, the second time moved, and all state is compared
after moving it back. Non-trivial: agents touch walls or each other; arrive;
interact while moving."""
import math

import numpy as np
from shapely.geometry import (LineString, MultiLineString, Polygon)

from crowddynamics.simulation import logic as L
from crowddynamics.simulation.agents import Agents, AgentGroup
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from harness import section
from gridways import inside
import scenes
from sims import MODELS, attributes, finite, snapshot

RULE = __doc__


def closed(c, x, y, w, h):
    ring = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
    return ring[::-1] if c.rng.random() < .5 else ring


def circles(a, i):
    if 'position_ls' in a.dtype.names:
        return [(a['position'][i], a['r_t'][i]),
                (a['position_ls'][i], a['r_s'][i]),
                (a['position_rs'][i], a['r_s'][i])]
    return [(a['position'][i], a['radius'][i])]


@section('walls', quick=12, thorough=400, min_nontrivial=3, weight=6.0)
def walls(c):
    """People in a closed room who walk into its walls and into each other
    stay in the room and do not walk through each other."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    w, h = r.uniform(2.5, 5), r.uniform(2.5, 5)
    x, y = r.choice([(0.0, 0.0), (-w / 2, -h / 2),
                     (r.uniform(-20, 20), r.uniform(-20, 20))])
    ring = closed(c, x, y, w, h)
    parts = [LineString(ring)] if r.random() < .6 else \
        [LineString(s) for s in zip(ring, ring[1:])]
    obstacles = parts[0] if len(parts) == 1 else MultiLineString(parts)
    field = Field(domain=Polygon(ring), obstacles=obstacles, targets=[])
    free = [(x + .5 + i * .8, y + .5 + j * .8) for i in range(6)
            for j in range(6)
            if .5 + i * .8 < w - .5 and .5 + j * .8 < h - .5]
    r.shuffle(free)
    n = min(r.randint(1, 5), len(free))
    middle = np.array([x + w / 2, y + h / 2])
    meet = r.random() < .4

    def attrs(k):
        d = attributes(c, model)
        v, t = np.array(d['velocity']), np.array(d['target_direction'])
        if meet:             # towards the middle
            t = middle - free[k]
            t = t / np.hypot(*t) if np.hypot(*t) > .1 else np.array([1., 0.])
        return dict(d, velocity=v / 2, target_direction=t)
    agents = Agents(agent_type=MODELS[model])
    it = iter(free)
    agents.add_non_overlapping_group(
        AgentGroup(agent_type=MODELS[model], size=n,
                   attributes=[attrs(k) for k in range(n)]),
        position_gen=lambda: next(it))
    sim = MultiAgentSimulation(field=field, agents=agents)
    forces = [L.Adjusting(sim) << L.Orientation(sim),
              L.AgentAgentInteractions(sim), L.AgentObstacleInteractions(sim)]
    if r.random() < .5:
        forces.append(L.Fluctuation(sim))
    sim.logic = L.Reset(sim) << (L.Integrator(sim, dt_min=.002, dt_max=.01)
                                 << forces)
    c.note(model, n, (x, y, w, h), meet)
    touching, deepest = 0, 0.0
    closest = np.inf
    seconds = r.uniform(1, 2)
    for k in range(400):
        c.call('walls', sim.update)
        a = sim.agents.array
        c.check(finite(a), 'walls:finite')
        p = a['position']
        c.check(np.all((p > [x, y]) & (p < [x + w, y + h])), 'walls:through',
                'iteration', k, p, (x, y, w, h))
        parts = [circles(a, i) for i in range(len(a))]
        for i in range(len(parts)):
            for q, s in parts[i]:
                gap = min(q[0] - x, x + w - q[0], q[1] - y, y + h - q[1])
                touching += gap < s
                deepest = max(deepest, 1 - gap / s)
            for j in range(i):
                closest = min([closest] + [
                    np.hypot(*(q - u)) / (s + v)
                    for q, s in parts[i] for u, v in parts[j]])
        c.check(closest > .5, 'walls:each-other', 'iteration', k, closest)
        if sim.data['time_tot'] >= seconds:
            break
    c.count('wall contacts', int(touching))
    c.state('deepest', round(deepest, 1), model)
    c.state('closest', round(min(closest, 5), 1), model)
    if touching or closest < 1.5:
        c.nontrivial(model, n, float(p.sum()))


@section('encounter', quick=8, thorough=240, min_nontrivial=4, weight=6.0)
def encounter(c):
    """Two people who walk straight towards each other evade each other, and
    somebody alone walks straight on (the scenarios that the project uses to
    validate itself, in any place and direction)."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    alone = c.index % 8 == 7
    a = r.choice([0.0, math.pi / 2, r.uniform(-math.pi, math.pi)])
    e = np.array([math.cos(a), math.sin(a)])
    start = np.array([r.uniform(-20, 20), r.uniform(-20, 20)]) \
        if r.random() < .5 else np.zeros(2)
    apart = r.uniform(3, 7)
    sim = MultiAgentSimulation()
    agents = Agents(agent_type=MODELS[model])
    for way, place in ([(e, start)] if alone else
                       [(e, start), (-e, start + apart * e)]):
        d = dict(radius=.255, ratio_rt=.5882, ratio_rs=.3725, ratio_ts=.6275,
                 mass=73.5, target_velocity=1.0, velocity=way.copy(),
                 target_direction=way.copy())
        if model == 'three_circle':
            d.update(orientation=math.atan2(way[1], way[0]),
                     target_orientation=math.atan2(way[1], way[0]),
                     angular_velocity=0.0)
        agents.add_non_overlapping_group(
            AgentGroup(agent_type=MODELS[model], size=1, attributes=[d]),
            position_gen=lambda: place)
    sim.agents = agents
    sim.field = Field(domain=Polygon(closed(c, start[0] - 30, start[1] - 30,
                                            60, 60)))
    leaf = [L.Adjusting(sim) << L.Orientation(sim)]
    if not alone:
        leaf += [L.Fluctuation(sim), L.AgentAgentInteractions(sim)]
    sim.logic = L.Reset(sim) << (L.Integrator(sim) << tuple(leaf))
    arr = sim.agents.array
    first = arr['position'].copy()
    deepest, nearest = 0.0, 99.0
    while sim.data['time_tot'] < 10 and sim.data['iterations'] < 1200:
        c.call('update', sim.update)
        if not alone:
            gap = min(math.dist(p, q) - s - t for p, s in circles(arr, 0)
                      for q, t in circles(arr, 1))
            deepest = min(deepest, gap)
            nearest = min(nearest, gap)
    c.check(finite(arr), 'encounter:finite')
    t = float(sim.data['time_tot'])
    moved = arr['position'] - first
    ways = [e, -e][:len(arr)]
    for k, way in enumerate(ways):
        got = float(moved[k] @ way)
        if alone:
            c.close(moved[k], t * way, 'walks-straight', rtol=1e-6,
                    atol=1e-6, detail=model)
        else:
            c.check(got >= 7.5, 'does-not-get-past', model, 'agent', k, 'got',
                    got, 'm in', t, 's; deepest', deepest)
    c.check(deepest > -.05, 'through-each-other', model, deepest)
    c.count('contacts', deepest < 0)
    c.state('encounter', model, alone, round(nearest, 1))
    c.nontrivial(model, a, apart, tuple(start))
    c.sample((model, a, apart, deepest))


@section('arrive', quick=30, thorough=1500, min_nontrivial=10, weight=4.0)
def arrive(c):
    """Somebody who knows the exit and has the room to himself gets there,
    around pillars and through the door."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    w, h = r.uniform(4, 7), r.uniform(4, 7)
    x, y = r.choice([(0.0, 0.0), (-w / 2, -h / 2),
                     (r.uniform(-20, 20), r.uniform(-20, 20))])
    width = r.uniform(1.3, 2)
    b = r.uniform(.2, h - width - .2)
    ring = closed(c, x, y, w + 1.5, h)
    pillars = []
    if r.random() < .6:
        px, py = x + w * r.uniform(.35, .5), y + h * r.uniform(.3, .6)
        s = r.uniform(.3, 1)
        pillars = [r.choice([
            ('line', [(px, py), (px + .1, py + s)]),
            ('poly', [(px, py), (px + s, py), (px + s, py + s),
                      (px, py + s)], [])])]
    obstacles = [('line', [(x + w, y), (x + w, y + b)]),
                 ('line', [(x + w, y + b + width), (x + w, y + h)]),
                 ('line', ring)] + pillars
    r.shuffle(obstacles)
    lower, upper = (x + w + .6, y + b), (x + w + 1.4, y + b + width)
    line = r.random() < .5
    exit_ = LineString([(x + w + .9, lower[1]), (x + w + .9, upper[1])]) \
        if line else Polygon([lower, (upper[0], lower[1]), upper,
                              (lower[0], upper[1])])
    targets, number = [exit_], 0
    if r.random() < .3:      # another one that is not used
        targets.append(LineString([(x + .75, y + .7), (x + .75, y + 1.5)]))
        if r.random() < .5:
            targets, number = targets[::-1], 1
    field = Field(domain=Polygon(ring), targets=targets,
                  obstacles=scenes.to_shapely(obstacles))
    free = [(x + .5 + i * .8, y + .5 + j * .8) for i in range(9)
            for j in range(9) if .5 + i * .8 < w - .5 and .5 + j * .8 < h - .5]
    free = [p for p in free if all(
        scenes.clearance([('line', [p, p])], [o]) > .45 for o in obstacles)]
    place = r.choice(free)
    agents = Agents(agent_type=MODELS[model])
    agents.add_non_overlapping_group(
        AgentGroup(agent_type=MODELS[model], size=1,
                   attributes=[attributes(c, model, target=number,
                                          velocity=np.zeros(2))]),
        position_gen=lambda: place)
    sim = MultiAgentSimulation(field=field, agents=agents)
    reached = L.TargetReached(sim)
    # cells of walls have no direction: too small to stand in
    nav = L.Navigation(sim, step=.1, radius=r.choice([.4, .5]),
                       strength=.3)
    sim.logic = L.Reset(sim) << (reached << (
        L.Integrator(sim, dt_min=.01, dt_max=.04) << [
            L.Adjusting(sim) << (L.Orientation(sim) << nav),
            L.AgentAgentInteractions(sim), L.AgentObstacleInteractions(sim)]))
    a = sim.agents.array
    speed = float(a['target_velocity'][0]) \
        if 'target_velocity' in a.dtype.names else 1.0
    way = np.hypot(x + w + .8 - place[0], y + b + width / 2 - place[1])
    limit = 4 * way / speed + 4
    c.note(model, place, 'pillars', pillars, (x, y, w, h), (b, width), line,
           number, speed)
    k, there = 0, False
    while sim.data.get('time_tot', 0) < limit and not there:
        c.call('arrive', sim.update)
        k += 1
        p = sim.agents.array['position'][0]
        there = lower[1] < p[1] < upper[1] and (
            p[0] > x + w + .7 if line else lower[0] < p[0] < upper[0])
        if k > limit / .009:
            c.fail('arrive:time', sim.data)
    c.check(there, 'arrive:lost', 'after', sim.data.get('time_tot'), 'at', p,
            'way', way, 'speed', speed)
    c.count('iterations', k)
    c.state('ratio', round(float(sim.data['time_tot'] * speed / way), 1))
    c.nontrivial(model, len(pillars), line, number, place)


class Move(object):
    """Mirrored, turned, shifted."""

    def __init__(self, theta=0.0, shift=(0.0, 0.0), mirror=False):
        self.theta, self.mirror = theta, mirror
        self.shift = np.array(shift, dtype=float)
        co, si = math.cos(theta), math.sin(theta)
        if theta == math.pi / 2:
            co, si = 0.0, 1.0
        self.m = np.array([[co, -si], [si, co]]).dot(
            np.diag([1.0, -1.0 if mirror else 1.0]))

    def vectors(self, v):
        return np.asarray(v, dtype=float).dot(self.m.T)

    def point(self, p):
        return tuple(float(x) for x in self.vectors(p) + self.shift)

    def points(self, ps):
        return [self.point(p) for p in ps]

    def geom(self, parts):
        return [(p[0], self.points(p[1])) + ((
            [self.points(h) for h in p[2]],) if p[0] == 'poly' else ())
            for p in parts]

    def array(self, a):
        b = np.array(a, copy=True)
        for n in ('position', 'position_ls', 'position_rs'):
            if n in b.dtype.names:
                b[n] = self.vectors(a[n]) + self.shift
        if self.mirror and 'position_ls' in b.dtype.names:
            b['position_ls'], b['position_rs'] = \
                b['position_rs'].copy(), b['position_ls'].copy()
        for n in ('velocity', 'target_direction', 'force', 'force_prev'):
            if n in b.dtype.names:
                b[n] = self.vectors(a[n])
        sign = -1.0 if self.mirror else 1.0
        for n in ('orientation', 'target_orientation'):
            if n in b.dtype.names:
                phi = sign * a[n] + self.theta
                b[n] = np.arctan2(np.sin(phi), np.cos(phi))
        for n in ('angular_velocity', 'torque', 'torque_prev'):
            if n in b.dtype.names:
                b[n] = sign * a[n]
        return b


ANGLES = ('orientation', 'target_orientation')


def alike(c, got, want, mech, rtol=1e-6):
    """State of all agents; angles up to full turns."""
    for n in got.dtype.names:
        x, y = got[n], want[n]
        if x.dtype.kind != 'f':
            c.check(np.array_equal(x, y), mech, n, x, y)
            continue
        d = np.abs(x - y)
        if n in ANGLES:
            d = np.minimum(d, np.abs(2 * np.pi - d))
        scale = 1 + (np.abs(y).max() if y.size else 0)
        c.check(d.size == 0 or d.max() <= rtol * scale, mech, n, x, y)


def scene(c):
    """Walls as data, and clear places for agents."""
    r = c.rng
    w, h = r.uniform(4, 8), r.uniform(4, 8)
    ring = [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)]
    parts = []
    for _ in range(r.randint(0, 3)):
        a, b = w * r.uniform(.1, .8), h * r.uniform(.1, .8)
        s = r.uniform(.3, 1.2)
        parts.append(r.choice([
            ('line', [(a, b), (a + s, b + s * r.uniform(-1, 1))]),
            ('poly', [(a, b), (a + s, b), (a + s * .7, b + s)], [])]))
    free = []
    gap = r.choice([.65, .8, 1.2])
    for i in range(int((w - .6) / gap)):
        for j in range(int((h - .6) / gap)):
            p = (.4 + i * gap + r.uniform(-.04, .04),
                 .4 + j * gap + r.uniform(-.04, .04))
            if all(scenes.clearance([('line', [p, p])], [o]) > .3
                   for o in parts):
                free.append(p)
    r.shuffle(free)
    if r.random() < .5:      # in contact with corners and walls
        corners = [p for o in parts for p in o[1]]
        r.shuffle(corners)
        if r.random() < .7:
            parts.append(('line', ring + ring[:1]))
            corners = r.sample(ring, 4) + corners
        tight = []
        for x, y in corners[:6]:
            for _ in range(20):
                a = r.uniform(-math.pi, math.pi)
                d = r.uniform(.1, .32)
                p = (x + d * math.cos(a), y + d * math.sin(a))
                if 0 < p[0] < w and 0 < p[1] < h and \
                        not any(o[0] == 'poly' and inside(p, [o])
                                for o in parts) and \
                        all(scenes.clearance([('line', [p, p])], [o]) > .08
                            for o in parts) and \
                        all(math.hypot(p[0] - q[0], p[1] - q[1]) > .75
                            for q in tight):
                    tight.append(p)
                    break
        free = tight + [p for p in free if all(
            math.hypot(p[0] - q[0], p[1] - q[1]) > .75 for q in tight)]
        c.count('places in contact', len(tight))
    return w, h, ring, parts, free


def crowd(c, model, places, positions=None):
    agents = Agents(agent_type=MODELS[model])
    it = iter(places)
    agents.add_non_overlapping_group(
        AgentGroup(agent_type=MODELS[model], size=len(places),
                   attributes=[attributes(c, model, target=0)
                               for _ in places]),
        position_gen=lambda: next(it))
    return agents


def parts_of(sim, walls_, navigation=None, dt=None):
    forces = [L.Adjusting(sim) << (
        L.Orientation(sim) << (L.Navigation(sim, **navigation))
        if navigation else L.Orientation(sim)), L.AgentAgentInteractions(sim)]
    if walls_:
        forces.append(L.AgentObstacleInteractions(sim))
    return L.Reset(sim) << (L.Integrator(sim, **(dt or {})) << forces)


def field_of(ring, parts, targets=()):
    kw = {'obstacles': scenes.to_shapely(parts)} if parts else {}
    return Field(domain=Polygon(ring), targets=[
        scenes.to_shapely([t]) for t in targets], **kw)


@section('moved', quick=70, thorough=2000, weight=3.0)
def moved(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    w, h, ring, parts, free = scene(c)
    n = min(r.randint(2, 10), len(free))
    places = free[:n]
    nav, targets, how = None, [], r.choice(['shift', 'turn', 'turn', 'mirror'])
    if how == 'shift' and r.random() < .7:
        w, h = math.ceil(w), math.ceil(h)
        ring = [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)]
        targets = [('line', [(w - .5, .5), (w - .5, h - .5)])]
        nav = dict(step=.25, radius=.3, strength=.3)
        parts = [p for p in parts if scenes.clearance([p], targets) > 1]
        m = Move(shift=(r.randint(-40, 40) / 4.0, r.randint(-40, 40) / 4.0))
    elif how == 'shift':
        m = Move(shift=(r.uniform(-30, 30), r.uniform(-30, 30)))
    else:
        m = Move(theta=r.choice([math.pi / 2, r.uniform(-3, 3)]),
                 shift=r.choice([(0, 0), (r.uniform(-9, 9),
                                          r.uniform(-9, 9))]),
                 mirror=how == 'mirror')
    order = list(range(n))
    if r.random() < .5:
        r.shuffle(order)
    a = MultiAgentSimulation(field=field_of(ring, parts, targets),
                             agents=crowd(c, model, places))
    parts2 = m.geom(parts)
    if r.random() < .5:
        r.shuffle(parts2)
        if not nav:      # (on the grid a line may take other cells back)
            parts2 = [p if r.random() < .5 else (p[0], p[1][::-1]) + p[2:]
                      for p in parts2]
    b = MultiAgentSimulation(
        field=field_of(m.points(ring), parts2, m.geom(targets)),
        agents=crowd(c, model, m.points(places)))
    b.agents.array[:] = m.array(a.agents.array)[order]
    for sim in (a, b):
        sim.logic = parts_of(sim, bool(parts), nav)
    c.note(model, how, 'places', places, 'walls', parts, 'turn', m.theta,
           'shift', m.shift, 'order', order, 'navigation', bool(nav))
    first = snapshot(a.agents.array)
    steps = r.randint(3, 8)
    for k in range(steps):
        c.call('moved', a.update)
        c.call('moved', b.update)
        alike(c, b.agents.array, m.array(a.agents.array)[order],
              'moved:' + how)
    c.close(b.data['time_tot'], a.data['time_tot'], 'moved:time', rtol=1e-7)
    now = a.agents.array
    turned = np.abs(now['velocity'] - first['velocity']).max()
    c.state('kind', how, model, bool(nav), order != sorted(order))
    if turned > 1e-3:
        c.nontrivial(model, how, n, len(parts), float(turned))


@section('apart', quick=30, thorough=1200, weight=3.0)
def apart(c):
    """Two crowds out of reach of each other: as if each was alone."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    w, h, ring, parts, free = scene(c)
    far = Move(shift=(w + r.uniform(9, 60), r.uniform(-30, 30)))
    places = free[:r.randint(1, 6)]
    w2, h2, _, parts2, free2 = scene(c)
    other = far.points(free2[:r.randint(1, 6)])
    parts2 = far.geom(parts2)
    hull = [(-1.0, -50.0), (150.0, -50.0), (150.0, 50.0), (-1.0, 50.0)]
    step = r.choice([.01, .005, .02])
    dt = dict(dt_min=step, dt_max=step)

    def simulate(where, walls_):
        sim = MultiAgentSimulation(field=field_of(hull, walls_),
                                   agents=crowd(c, model, where))
        sim.logic = parts_of(sim, bool(walls_), None, dt)
        return sim
    a, b = simulate(places, parts), simulate(other, parts2)
    both = simulate(places + other, parts + parts2)
    both.agents.array[:] = np.concatenate([a.agents.array, b.agents.array])
    c.note(model, places, parts, other, parts2)
    first = snapshot(both.agents.array)
    for k in range(r.randint(3, 8)):
        for sim in (a, b, both):
            c.call('apart', sim.update)
        alike(c, both.agents.array, np.concatenate(
            [a.agents.array, b.agents.array]), 'apart:other')
    if np.abs(both.agents.array['velocity'] - first['velocity']).max() > 1e-3:
        c.nontrivial(model, len(places), len(other), float(
            both.agents.array['position'].sum()))
