"""Agents of both models in boxes, corridors, corners and random walls (apart,
touching with the middle or an end of the wall, several walls at once, very long
and very short walls), at rest and sliding. The oracle evaluates the documented
contact law per wall and sums; monitors of the law itself check direction,
sliding and linearity. Non-trivial: at least one wall touched and one not."""
import math

import numpy as np
from shapely.geometry import LineString, MultiLineString, box

from crowddynamics.core.interactions import agent_obstacle
from crowddynamics.core.motion.contact import force_contact
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import AgentObstacleInteractions
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowd import DTYPES, compare, fill, place
from exact import dist, parts, wall_gap
from harness import section
from physics import Unclear, contact, vec, wall_effect
from sims import flags, make_agents, snapshot

RULE = __doc__


def scene(c, model, n):
    r = c.rng
    off = r.choice([(0.0, 0.0), (-17.0, 33.3)])
    a = np.zeros(n, dtype=DTYPES[model])
    run = r.choice([0.0, 1.5, 1.5, 12.0])
    flags(r, a)
    for k in range(n):
        fill(r, a[k], model, (off[0] + r.uniform(-3, 3),
                              off[1] + r.uniform(-3, 3)))
        a[k]['velocity'] = (run * r.uniform(-1, 1), run * r.uniform(-1, 1))
        if r.random() < .5:
            a[k]['force'] = (r.uniform(-9, 9), r.uniform(-9, 9))
        if model == 'three_circle' and r.random() < .5:
            a[k]['torque'] = r.uniform(-9, 9)
    walls = []
    for k in range(r.choice([0, 1, 3, 8]) if r.random() < .95 else
                   r.choice([70, 150])):
        if r.random() < .6 and n:
            # through or next to a part of an agent
            x, rad = r.choice(parts(a[r.randrange(n)], model))
            b = r.uniform(-math.pi, math.pi)
            if model == 'three_circle' and r.random() < .3:
                # touched by nothing but the far side of a shoulder
                torso, left, right = parts(a[r.randrange(n)], model)
                x, rad = r.choice([left, right])
                b = math.atan2(x[1] - torso[0][1], x[0] - torso[0][0]) + \
                    r.uniform(-.3, .3)
            d = rad * r.uniform(.05, 1.3) if r.random() < .7 else \
                rad - r.choice([-1, 1]) * 10 ** r.uniform(-7, -2)
            e = (math.cos(b), math.sin(b))
            p = (x[0] + d * e[0], x[1] + d * e[1])
            kind = r.randrange(3)
            ln = r.choice([.05, 1.0, 200.0])
            if kind == 0:      # beside it
                t = r.uniform(.1, .9)
                w = ((p[0] - t * ln * e[1], p[1] + t * ln * e[0]),
                     (p[0] + (1 - t) * ln * e[1], p[1] - (1 - t) * ln * e[0]))
            elif kind == 1:    # end points at it
                w = (p, (p[0] + ln * e[0], p[1] + ln * e[1]))
            else:              # corner
                s = b + r.uniform(-1, 1)
                w = (p, (p[0] + ln * math.cos(s), p[1] + ln * math.sin(s)))
            if r.random() < .5:
                w = (w[1], w[0])
        else:
            q = [(off[0] + r.uniform(-4, 4), off[1] + r.uniform(-4, 4))
                 for _ in range(2)]
            if r.random() < .3:
                q[1] = (q[0][0], q[1][1])
            w = tuple(q)
        if dist(*w) > 1e-3:
            walls.append(w)
    return a, walls


def oracle(a, walls, model):
    n = len(a)
    F, T, tol = np.zeros((n, 2)), np.zeros(n), np.full(n, 1e-12)
    touch = 0
    for k in range(n):
        for s, e in walls:
            (f, t), err, hit = wall_effect(a[k], s, e, model)
            F[k] += f
            T[k] += t
            tol[k] += err
            touch += hit
    return F, T, tol + 1e-12 * abs(F).max(initial=0), touch


def obstacle_array(walls):
    out = np.zeros(len(walls), dtype=obstacle_type_linear)
    for k, w in enumerate(walls):
        out[k] = w
    return out


@section('walls', 300, 20000)
def walls_pass(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([0, 1, 3, 8])
    a, walls = scene(c, model, n)
    try:
        F, T, tol, touch = oracle(a, walls, model)
    except Unclear:
        c.skip()
    if len(tol) and tol.max() > 1e-4 * (1 + abs(F).max()):
        c.skip()
    b = snapshot(a)
    obs = obstacle_array(walls)
    keep = obs.copy()
    c.call('agent_obstacle', agent_obstacle, b, obs)
    c.check(obs.tobytes() == keep.tobytes(), 'walls-changed')
    compare(c, a, b, F, T, tol, model, '')
    b2 = snapshot(a)
    agent_obstacle(b2, obs[::-1].copy())
    compare(c, a, b2, F, T, tol, model, 'walls-reordered-')
    c.count('touching', touch)
    c.state('mix', model, n, len(walls), min(touch, 5))
    if touch and touch < n * len(walls):
        c.nontrivial(a.tobytes(), walls)
    c.sample((model, n, len(walls), touch))


@section('law', 300, 20000)
def law(c):
    r = c.rng
    b = r.choice([0.0, math.pi / 2, r.uniform(-math.pi, math.pi)])
    n = (math.cos(b), math.sin(b))
    t = (n[1], -n[0])
    h = -10 ** r.uniform(-6, 0)
    v = r.choice([(0.0, 0.0), (r.uniform(-3, 3), r.uniform(-3, 3)),
                  (r.uniform(-30, 30), r.uniform(-30, 30))])
    mu, kappa, damp = [10 ** r.uniform(2, 5), 10 ** r.uniform(2, 5),
                       r.choice([0.0, 500.0, r.uniform(0, 1e3)])]
    rec = dict(mu=mu, kappa=kappa, damping=damp)
    args = [np.array(x) for x in (n, v, t)]
    keep = [x.copy() for x in args]
    got = vec(c.call('force_contact', force_contact, h, args[0], args[1],
                     args[2], mu, kappa, damp))
    c.check(all(np.array_equal(x, y) for x, y in zip(args, keep)),
            'argument-changed')
    want = contact(h, n, v, rec)
    c.close(got, want, 'contact-law', rtol=1e-9, atol=1e-9 * (
        abs(h) * (mu + kappa * 5) + damp * 5))
    vn, vt = v[0] * n[0] + v[1] * n[1], v[0] * t[0] + v[1] * t[1]
    fn, ft = got[0] * n[0] + got[1] * n[1], got[0] * t[0] + got[1] * t[1]
    tiny = 1e-9 * (abs(h) * (mu + kappa * 5) + damp * 5)
    c.close(fn, -h * mu + damp * vn, 'normal-part', atol=tiny)
    c.check(ft * vt <= tiny * 10, 'does-not-oppose-sliding', ft, vt)
    if v == (0.0, 0.0):
        c.check(fn > 0, 'does-not-push-apart', fn, h)
        c.check(abs(ft) <= tiny, 'sideways', ft)
    # harder contact pushes harder
    more = vec(force_contact(2 * h, args[0], np.zeros(2), args[2], mu, kappa,
                             damp))
    less = vec(force_contact(h, args[0], np.zeros(2), args[2], mu, kappa,
                             damp))
    c.close(more, (2 * less[0], 2 * less[1]), 'linear', rtol=1e-12)
    c.nontrivial(h, b, v, mu, kappa, damp)
    c.sample((h, n, v, got))


@section('node', 60, 3000)
def node(c):
    """The logic node with the obstacles of a field, or none."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([1, 4, 9])
    sim = MultiAgentSimulation()
    sim.agents = make_agents(c, model, n)
    arr = sim.agents.array
    flags(r, arr)
    field = Field(domain=box(-50, -50, 50, 50))
    sim.field = field
    logic = c.call('construct', AgentObstacleInteractions, sim)
    hits = 0
    for step in range(3):
        x, rad = r.choice(parts(arr[r.randrange(n)], model))
        k = r.randrange(4)
        d = rad * r.uniform(.2, .9)
        if k == 0:
            walls = []
        elif k == 1:
            walls = [((x[0] + d, -20.0), (x[0] + d, 20.0))]
            field.obstacles = LineString(walls[0])
        elif k == 2:
            walls = [((x[0] - d, -20.0), (x[0] - d, 20.0)),
                     ((-9.0, x[1] + d), (9.0, x[1] + d))]
            field.obstacles = MultiLineString([list(w) for w in walls])
        else:
            q = [(x[0] + d, x[1] + d), (x[0] + d + 3, x[1] + d),
                 (x[0] + d + 3, x[1] + d + 2), (x[0] + d, x[1] + d + 2)]
            field.obstacles = box(q[0][0], q[0][1], q[2][0], q[2][1])
            walls = [(q[i], q[(i + 1) % 4]) for i in range(4)]
        if k == 0:
            field = Field(domain=box(-50, -50, 50, 50))
            sim.field = field
        a = snapshot(arr)
        try:
            F, T, tol, touch = oracle(a, walls, model)
        except Unclear:
            c.skip()
        c.call('AgentObstacleInteractions.update', logic.update)
        compare(c, a, arr, F, T, tol, model, 'node-')
        hits += touch
        c.state('obstacles', k, touch > 0)
    c.count('touching', hits)
    if hits:
        c.nontrivial(arr.tobytes())
    c.sample((model, n, hits))
