"""Doors of every width (including exact multiples of the layer and agent width
on dyadic numbers), crowds around an exit, and crowds with several exits behind
random walls; the oracles evaluate the definitions with exact rationals and
brute force. Non-trivial: capacity above one, two or more agents ranked, or at
least one exit hidden or out of range and one detected."""
import math
from fractions import Fraction

import numpy as np
from shapely.geometry import LineString, MultiLineString, Polygon, box

from crowddynamics.core.evacuation import agent_closer_to_exit, \
    exit_detection, narrow_exit_capacity
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import ExitDetection
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from exact import dist
from harness import section
from sims import attributes, diff_fields, make_agents, snapshot

RULE = __doc__


def frac_point(p):
    return Fraction(float(p[0])), Fraction(float(p[1]))


def blocks(a, b, s, e):
    """(segments share a point, relative margin); None when parallel."""
    a, b, s, e = map(frac_point, (a, b, s, e))
    u = (b[0] - a[0], b[1] - a[1])
    v = (e[0] - s[0], e[1] - s[1])
    w = (s[0] - a[0], s[1] - a[1])
    d = u[0] * v[1] - u[1] * v[0]
    if d == 0:
        return None, 0.0
    t = (w[0] * v[1] - w[1] * v[0]) / d
    q = (w[0] * u[1] - w[1] * u[0]) / d
    n = float((u[0] ** 2 + u[1] ** 2) * (v[0] ** 2 + v[1] ** 2))
    sine = abs(float(d)) / math.sqrt(n)
    m = float(min(abs(t), abs(t - 1), abs(q), abs(q - 1)))
    return 0 <= t <= 1 and 0 <= q <= 1, m * min(1.0, sine)


def dyadic(r, lo, hi):
    k = r.choice([4, 8, 64])
    return r.randint(int(lo * k), int(hi * k)) / k


@section('capacity', 600, 60000)
def capacity(c):
    r = c.rng
    exact = r.random() < .5
    u = (lambda a, b: dyadic(r, a, b)) if exact else r.uniform
    agent = max(u(.1, 1.5), .0625)
    layer = r.choice([None, agent, max(u(.05, 1.5), .0625)])
    if layer is not None and layer > agent and r.random() < .5:
        layer = agent
    coeff = r.choice([1.0, 1.0, 2.0, max(.125, u(.1, 3))])
    width = layer if layer is not None else agent
    doors = [0.0, agent, u(0, 3), u(0, 10), agent / 2] + \
        [agent + k * width for k in range(3)]
    if not exact:
        doors += [float(np.nextafter(agent, 0)), float(np.nextafter(agent, 9))]
    out = []
    for door in sorted(doors):
        args = (door, agent, layer, coeff)
        if coeff == 1.0 and r.random() < .5:
            args = args[:3]
            if layer is None and r.random() < .5:
                args = args[:2]
        got = c.call('narrow_exit_capacity', narrow_exit_capacity, *args)
        d, a = Fraction(door), Fraction(agent)
        if d < a:
            want = {0.0}
        else:
            q = d / a if layer is None else \
                (d - (a - Fraction(layer))) / Fraction(layer)
            k = math.floor(q)
            want = {k}
            if not exact:
                near = Fraction(1, 10 ** 9)
                want |= {math.floor(q - near), math.floor(q + near)}
            want = {coeff * w for w in want}
        c.check(any(abs(got - w) <= 1e-12 * max(1, abs(w)) for w in want),
                'capacity', args, got, sorted(want))
        out.append(got)
        c.state('steps', layer is None, round(got / coeff))
        if layer is None:
            same = narrow_exit_capacity(door, agent, agent, coeff)
            if exact:
                c.close(same, got, 'estimates-agree', detail=args)
    c.check(all(p <= q for p, q in zip(out, out[1:])), 'decreases',
            sorted(doors), out)
    if max(out) > coeff:
        c.nontrivial(agent, layer, coeff, doors)
    c.sample((agent, layer, coeff, out))


@section('ranking', 400, 40000)
def ranking(c):
    r = c.rng
    n = r.choice([0, 1, 2, 3, 10, 40, 40, 300])
    s = 10 ** r.uniform(-1, 2)
    door = np.array([r.uniform(-s, s), r.uniform(-s, s)])
    pos = np.array([[r.uniform(-s, s), r.uniform(-s, s)] for _ in range(n)]
                   ).reshape(n, 2)
    if n > 1 and r.random() < .3:       # on rings around the exit
        for k in range(n):
            a = r.uniform(-3, 3)
            q = s * r.choice([.5, 1, 2]) * (1 + 1e-4 * k)
            pos[k] = door + q * np.array([math.cos(a), math.sin(a)])
    d = [dist(p, door) for p in pos]
    sd = sorted(d)
    if n > 1 and r.random() < .15:      # some at the same place
        for _ in range(r.choice([1, n // 2])):
            i, j = r.sample(range(n), 2)
            pos[i] = pos[j]
        d = [dist(p, door) for p in pos]
        keep = pos.copy()
        got = [int(k) for k in c.call('agent_closer_to_exit',
                                      agent_closer_to_exit, door, pos)]
        c.check(np.array_equal(pos, keep), 'argument-changed')
        c.equal(sorted(got), list(range(n)), 'ranking:permutation', d)
        far = 0.0
        for k, i in sorted(zip(got, range(n))):
            c.check(d[i] >= far - 1e-9 * s, 'ranking:order', k, i, d[i], far)
            far = max(far, d[i])
        c.count('agents at the same place')
        c.nontrivial(door.tolist(), pos.tolist())
        return
    if any(b - a < 1e-9 * s for a, b in zip(sd, sd[1:])):
        c.skip()
    keep = pos.copy()
    got = c.call('agent_closer_to_exit', agent_closer_to_exit, door, pos)
    want = [sum(e < f for e in d) for f in d]
    c.equal([int(k) for k in got], want, 'ranking', d)
    c.check(np.array_equal(pos, keep), 'argument-changed')
    # the ranks follow their agents
    perm = r.sample(range(n), n)
    again = agent_closer_to_exit(door, pos[perm])
    c.equal([int(k) for k in again], [want[k] for k in perm],
            'ranking-permuted')
    if n > 1:
        c.nontrivial(door.tolist(), pos.tolist())
    c.sample((n, want[:8]))


def walls_between(c, starts, ends, n, area):
    """Walls with a clear verdict for every line of sight."""
    r = c.rng
    out = []
    for _ in range(20 * n):
        if len(out) == n:
            break
        s = (r.uniform(-area, area), r.uniform(-area, area))
        a = r.uniform(-3.2, 3.2)
        q = area * r.choice([.05, .2, .8])
        e = (s[0] + q * math.cos(a), s[1] + q * math.sin(a))
        ok = True
        for x in starts:
            for y in ends:
                v, m = blocks(x, y, s, e)
                if v is None or m < 1e-9:
                    ok = False
        if ok:
            out.append((s, e))
    return out


def oracle(c, pos, doors, walls, reach):
    """Exit seen by each agent or None; skips borderline arrangements."""
    want = []
    for p in pos:
        seen = []
        for k, d in enumerate(doors):
            q = dist(p, d)
            if abs(q - reach) < 1e-9 * (1 + reach):
                c.skip()
            hidden = any(blocks(p, d, s, e)[0] for s, e in walls)
            c.state('exit', hidden, q < reach)
            if not hidden and q < reach:
                seen.append((q, k))
        seen.sort()
        if len(seen) > 1 and seen[1][0] - seen[0][0] < 1e-9 * (1 + reach):
            c.skip()
        want.append(seen[0][1] if seen else None)
    return want


@section('detection', 250, 12000)
def detection(c):
    r = c.rng
    n, m = r.choice([0, 1, 5, 15]), r.choice([1, 2, 3, 5])
    if r.random() < .03:
        n, m = 70, 14
    area = 10 ** r.uniform(0, 1.5)
    pos = [(r.uniform(-area, area), r.uniform(-area, area)) for _ in range(n)]
    doors = [(r.uniform(-area, area), r.uniform(-area, area))
             for _ in range(m)]
    if any(dist(p, d) < 1e-6 for p in pos for d in doors):
        c.skip()
    walls = walls_between(c, pos, doors, r.choice([0, 1, 3, 8]), area)
    reach = area * r.choice([.3, 1, 3])
    if pos and r.random() < .3:         # just in range, or just not
        reach = dist(r.choice(pos), r.choice(doors)) + \
            r.choice([1, -1]) * 10 ** r.uniform(-7, -1) * area
        if reach <= 0:
            c.skip()
    want = oracle(c, pos, doors, walls, reach)
    obs = np.zeros(len(walls), dtype=obstacle_type_linear)
    for k, w in enumerate(walls):
        obs[k] = w
    P, D = np.array(pos).reshape(n, 2), np.array(doors)
    keep = P.copy(), D.copy()
    found, has = c.call('exit_detection', exit_detection, D, P, obs, reach)
    c.check(np.array_equal(P, keep[0]) and np.array_equal(D, keep[1]),
            'argument-changed')
    c.equal([bool(h) for h in has], [w is not None for w in want],
            'has-detected')
    c.equal([int(f) for f in found], [-1 if w is None else w for w in want],
            'detected-exit')
    c.count('detections', sum(w is not None for w in want))
    if any(w is None for w in want) and any(w is not None for w in want):
        c.nontrivial(pos, doors, walls, reach)
    c.sample((n, m, len(walls), want[:8]))


@section('node', 60, 2500)
def node(c):
    """The logic node on live agents: followers that detect an exit adopt it
    and stop following; nobody and nothing else changes."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([1, 4, 9, 16])
    gap = r.choice([1.5, 3.0])
    agents = make_agents(c, model, n, spread=gap, attrs=lambda k: attributes(
        c, model, is_follower=r.random() < .6, is_leader=r.random() < .3,
        target=r.choice([-1, 0, 1]), familiar_exit=r.choice([-1, 0])))
    side = math.ceil(math.sqrt(n)) * gap
    lines, doors, other = [], [], {}
    for _ in range(r.choice([1, 2, 4])):
        x, y = r.uniform(-side, 2 * side), r.uniform(-side, 2 * side)
        a, h = r.uniform(-3, 3), r.uniform(.3, 1)
        p = (x - h * math.cos(a), y - h * math.sin(a))
        q = (x + h * math.cos(a), y + h * math.sin(a))
        if r.random() < .3:      # exits can be areas
            o = (x + r.uniform(.2, 1), y + r.uniform(1.2, 2))
            if r.random() < .5:
                lines.append(Polygon([p, q, o]))
                doors.append(((p[0] + q[0] + o[0]) / 3,
                              (p[1] + q[1] + o[1]) / 3))
            else:
                lines.append(box(x, y, o[0], o[1]))
                doors.append(((x + o[0]) / 2, (y + o[1]) / 2))
            c.count('exits that are areas')
            continue
        mid = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
        if r.random() < .3:      # a bent door, and one with a point on it
            t = r.choice([0.0, r.uniform(-.4, .4)])
            w = r.choice([.5, .2])
            lines.append(LineString([p, (
                p[0] + w * (q[0] - p[0]) - t * (q[1] - p[1]),
                p[1] + w * (q[1] - p[1]) + t * (q[0] - p[0])), q]))
            mid = tuple(sum(v[k] for v in lines[-1].coords) / 3
                        for k in (0, 1))
            # where the middle is by points and by length
            at, s = list(lines[-1].coords), 0.0
            m = [0.0, 0.0]
            for u, v in zip(at, at[1:]):
                s += dist(u, v)
                m = [m[k] + dist(u, v) * (u[k] + v[k]) / 2 for k in (0, 1)]
            other[len(doors)] = (m[0] / s, m[1] / s)
            c.count('exits with a corner')
        else:
            lines.append(LineString([p, q]))
        doors.append(mid)
    sim = MultiAgentSimulation()
    sim.agents = agents
    sim.field = Field(domain=box(-99, -99, 99, 99), targets=lines)
    arr = agents.array
    for g in arr:        # some have left or arrived
        g['active'] = r.random() < .8
        g['target_reached'] = r.random() < .2
    pos = [tuple(map(float, p)) for p in arr['position']]
    if any(dist(p, d) < 1e-3 for p in pos for d in doors):
        c.skip()
    walls = walls_between(c, pos, doors, r.choice([0, 0, 2, 5]), side)
    if walls:
        sim.field.obstacles = MultiLineString(
            [list(map(list, w)) for w in walls]) if len(walls) > 1 else \
            LineString(walls[0])
    kw = {}
    if r.random() < .7:
        kw['detection_range'] = max(1.0, side * r.choice([.3, 1, 3]))
    logic = c.call('construct', ExitDetection, sim, **kw)
    want = oracle(c, pos, doors, walls, kw.get('detection_range', 20.0))
    if other:        # the middle of a bent exit is not defined
        for k in range(1, 4):
            mixed = [tuple(m + k / 3 * (o - m) for m, o in
                           zip(d, other.get(i, d)))
                     for i, d in enumerate(doors)]
            if oracle(c, pos, mixed, walls,
                      kw.get('detection_range', 20.0)) != want:
                c.skip('depends on the middle of a bent exit')
    for step in range(2):
        if step and not other and r.random() < .5:
            # the surroundings change between the two
            walls = walls_between(c, pos, doors, r.choice([0, 2, 5]), side)
            sim.field.obstacles = MultiLineString(
                [list(map(list, w)) for w in walls]) if walls else None
            want = oracle(c, pos, doors, walls,
                          kw.get('detection_range', 20.0))
            arr['is_follower'] = [r.random() < .6 for _ in range(n)]
            c.count('walls moved')
        elif step and not other and len(doors) > 1:
            # the exits change places
            lines, doors = lines[1:] + lines[:1], doors[1:] + doors[:1]
            sim.field.targets = lines
            want = oracle(c, pos, doors, walls,
                          kw.get('detection_range', 20.0))
            arr['is_follower'] = [r.random() < .6 for _ in range(n)]
            c.count('exits moved')
        before = snapshot(agents.array)
        c.call('ExitDetection.update', logic.update)
        after = agents.array
        for k in range(n):
            adopts = bool(before[k]['is_follower']) and want[k] is not None
            c.equal(int(after[k]['target']),
                    want[k] if adopts else int(before[k]['target']),
                    'adopted-target', k, step)
            c.equal(bool(after[k]['is_follower']),
                    bool(before[k]['is_follower']) and not adopts,
                    'still-follows', k, step)
            c.count('adoptions', adopts)
        c.check(set(diff_fields(before, after)) <= {'target', 'is_follower'},
                'other-attributes-changed', diff_fields(before, after))
    if any(w is not None for w in want):
        c.nontrivial(pos, doors, walls)
    c.sample((model, n, want[:8]))
