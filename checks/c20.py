"""Pairs of agents of both models on collision, grazing, parting, parallel,
overlapping and chasing courses, from almost touching to far, from creeping to
running, with every combination of parts that meet
first, own masses and constants. The oracle finds the first contact
geometrically (nearest approach of the lines of motion) and differentiates the
documented energy implicitly; a second monitor differentiates it by finite
differences. Non-trivial: pairs that will collide."""
import math

import numpy as np

from crowddynamics.core.motion import power_law as P
from crowd import DTYPES, fill, place
from exact import dist, gap, parts, sub
from harness import section
from physics import F_MAX, Unclear, energy, first_contact, mul, norm, slope, \
    social, vec

RULE = __doc__
FORCES = {'circular': P.force_social_circular,
          'three_circle': P.force_social_three_circle}


def apart(agents, model, e, gap):
    """Move the second agent along e until its gap to the first is as given."""
    ways = []
    for p, rp in parts(agents[0], model):
        for q, rq in parts(agents[1], model):
            x = sub(q, p)
            along, off = x[0] * e[0] + x[1] * e[1], x[0] * e[1] - x[1] * e[0]
            reach = rp + rq + gap
            if abs(off) < reach:
                ways.append(math.sqrt(reach * reach - off * off) - along)
    if not ways:
        return
    way = max(ways)
    agents[1]['position'] += (way * e[0], way * e[1])
    place(agents[1], model)


def pair(c, model):
    r = c.rng
    agents = np.zeros(2, dtype=DTYPES[model])
    off = (r.uniform(-20, 20), r.uniform(-20, 20)) if r.random() < .5 \
        else (0.0, 0.0)
    a = r.uniform(-math.pi, math.pi)
    kind = r.choice(['hit', 'hit', 'hit', 'graze', 'part', 'same', 'overlap',
                     'far', 'any', 'close', 'close'])
    d = {'overlap': r.uniform(0, .4), 'far': r.uniform(5, 60),
         'hit': r.choice([r.uniform(.6, 1), r.uniform(.6, 6)])}.get(
             kind, r.uniform(.3, 8))
    if kind == 'overlap' and d < .02:
        d = 0.0 if r.random() < .5 else .02
    e = (math.cos(a), math.sin(a))
    fill(r, agents[0], model, off)
    fill(r, agents[1], model, (off[0] + d * e[0], off[1] + d * e[1]))
    width = float(agents['radius'].sum())
    s = r.choice([r.uniform(.05, 3), 1.0])
    if kind == 'close':             # imminent or creeping towards each other
        apart(agents, model, e, 10 ** r.uniform(-6, 0))
        d = dist(vec(agents[0]['position']), vec(agents[1]['position']))
        s = r.choice([1.0, r.uniform(.05, 3), 10 ** r.uniform(-5, -1)])
    if kind == 'same':
        rel = (0.0, 0.0)
    elif kind == 'any':
        b = r.uniform(-math.pi, math.pi)
        rel = (s * math.cos(b), s * math.sin(b))
    else:
        # offset of the line of motion from the centre of the other agent
        side = width * r.uniform(-1, 1)
        if kind == 'graze':
            side = width * r.choice([-1, 1]) * (1 + r.uniform(-.02, .02))
        if kind == 'hit' and r.random() < .3 or kind == 'close' and \
                r.random() < .8:
            side = 0.0
        b = a + math.asin(max(-1, min(1, side / max(d, 1e-9))))
        if kind == 'part':
            b += math.pi
        rel = (s * math.cos(b), s * math.sin(b))
    base = (r.uniform(-2, 2), r.uniform(-2, 2)) if r.random() < .5 \
        else (0.0, 0.0)
    agents[1]['velocity'] = base
    agents[0]['velocity'] = (base[0] + rel[0], base[1] + rel[1])
    if r.random() < .2:             # equal constants
        for k in ('mass', 'k_soc', 'tau_0', 'mu', 'kappa', 'damping'):
            agents[1][k] = agents[0][k]
    return agents, kind


def which_parts(agents, model):
    """Parts that meet first, for the evidence."""
    v = sub(vec(agents[0]['velocity']), vec(agents[1]['velocity']))
    best = None
    for i, p in enumerate(parts(agents[0], model)):
        for j, q in enumerate(parts(agents[1], model)):
            try:
                h = first_contact([p], [q], v)
            except Unclear:
                continue
            if h and (best is None or h[0] < best[0]):
                best = (h[0], i, j)
    return best and best[1:]


def tol(f, acc):
    return 1e-12 + (1e-9 + 20 * acc) * norm(f)


@section('forces', 1500, 120000)
def forces(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle', 'three_circle'])
    agents, kind = pair(c, model)
    try:
        want, acc = social(agents[0], agents[1], model)
    except Unclear:
        c.skip()
    if acc > 1e-4:
        c.skip()
    keep = agents.copy()
    fn = FORCES[model]
    got = c.call('force_social_' + model, fn, agents, 0, 1)
    c.check(agents.tobytes() == keep.tobytes(), 'agents-changed')
    for k in (0, 1):
        g = vec(got[k])
        c.check(dist(g, want[k]) <= tol(want[k], acc), 'social-force', model,
                kind, 'agent', k, 'got', g, 'expected', want[k], acc,
                'parts', which_parts(agents, model))
        c.check(norm(g) <= F_MAX * (1 + 1e-9), 'over-maximum', g)
    back = fn(agents, 1, 0)
    for k in (0, 1):
        c.check(dist(vec(back[k]), vec(got[1 - k])) <= tol(want[1 - k], acc),
                'swap', model, kind, back, got)
    a, b = agents
    if all(a[k] == b[k] for k in ('mass', 'k_soc', 'tau_0')):
        c.check(norm(vec(got[0] + got[1])) <= tol(want[0], acc),
                'not-opposite', got)
        c.count('equal-pairs')
    # approaching head on is always pushed away
    if norm(want[0]) > 1e-60:
        x = sub(vec(a['position']), vec(b['position']))
        v = sub(vec(a['velocity']), vec(b['velocity']))
        c.check(got[0][0] * v[0] + got[0][1] * v[1] <= 1e-6 * norm(want[0]) *
                norm(v), 'accelerates-collision', got[0], v)
        c.state('parts', model, which_parts(agents, model))
        c.count('capped', norm(want[0]) >= F_MAX * .999)
        c.nontrivial(model, agents.tobytes())
    else:
        c.check(norm(want[1]) > 0 or max(norm(got[0]), norm(got[1])) < 1e-60,
                'not-zero', model, kind, got)
        c.state('zero', model, kind)
    c.sample((model, kind, want))


@section('gradient', 400, 20000)
def gradient(c):
    """The force against finite differences of the energy, moving the agent."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    agents, kind = pair(c, model)
    v = sub(vec(agents[0]['velocity']), vec(agents[1]['velocity']))

    def tau_at(dx, dy):
        q = parts(agents[0], model)
        q = [((x[0] + dx, x[1] + dy), rad) for x, rad in q]
        h = first_contact(q, parts(agents[1], model), v)
        if h is None:
            raise Unclear('not colliding nearby')
        return h[0]
    try:
        tau = tau_at(0, 0)
        want, acc = social(agents[0], agents[1], model)
        if norm(want[0]) == 0 or max(map(norm, want)) > .99 * F_MAX or \
                acc > 1e-8 or tau < 1e-2:
            c.skip()
        h = 1e-5
        es = []
        for rec in agents:
            k = tuple(float(rec[x]) for x in ('k_soc', 'mass'))
            t0 = float(rec['tau_0'])
            gx, gy = [(energy(k[0], k[1], tau_at(*p), t0) -
                       energy(k[0], k[1], tau_at(-p[0], -p[1]), t0)) / (2 * h)
                      for p in ((h, 0), (0, h))]
            # curvature makes the difference quotient inexact near grazing
            g2x, g2y = [(energy(k[0], k[1], tau_at(*p), t0) -
                         energy(k[0], k[1], tau_at(-p[0], -p[1]), t0)) /
                        (4 * h) for p in ((2 * h, 0), (0, 2 * h))]
            es.append(((gx, gy), (g2x, g2y)))
    except Unclear:
        c.skip()
    got = FORCES[model](agents, 0, 1)
    for k, sign in ((0, -1), (1, 1)):
        (g, g2) = es[k]
        err = 3 * dist(g, g2) + 1e-4 * norm(g) + 1e-7
        if err > .05 * norm(g):
            c.skip()
        c.check(dist(vec(got[k]), mul(sign, g)) <= err, 'not-the-gradient',
                model, kind, got[k], mul(sign, g), err)
    c.nontrivial(model, agents.tobytes())
    c.sample((model, kind, tau))


@section('laws', 300, 20000)
def laws(c):
    """Energy, magnitude and time to collision as functions of their own."""
    r = c.rng
    k, tau, t0 = r.uniform(.1, 5), 10 ** r.uniform(-2, 1.4), r.uniform(.3, 9)
    c.close(c.call('potential', P.potential, k, tau, t0),
            energy(k, 1.0, tau, t0), 'energy')
    c.close(k * c.call('magnitude', P.magnitude, tau, t0),
            -slope(k, 1.0, tau, t0), 'magnitude')
    agents, kind = pair(c, 'circular')
    x = agents[0]['position'] - agents[1]['position']
    v = agents[0]['velocity'] - agents[1]['velocity']
    rad = float(agents['radius'].sum())
    try:
        h = first_contact([(vec(x), rad)], [((0.0, 0.0), 0.0)], vec(v))
    except Unclear:
        c.skip()
    if h is not None and h[2] > 1e-6:
        c.skip()
    keep = x.copy(), v.copy()
    got, grad = c.call('time_to_collision', P.time_to_collision_circle_circle,
                       x, v, rad)
    c.check(np.array_equal(x, keep[0]) and np.array_equal(v, keep[1]),
            'argument-changed')
    if h is None:
        c.check(math.isnan(got), 'tau-undefined', got, kind)
        c.check(grad[0] == 0 and grad[1] == 0, 'gradient-undefined', grad)
    else:
        rt = 1e-9 + 20 * h[2]
        c.close(got, h[0], 'time-to-collision', rtol=rt)
        # up to the sign convention of the implementation
        g = vec(grad)
        c.check(min(dist(g, h[1]), dist(mul(-1, g), h[1])) <=
                rt * norm(h[1]), 'gradient-of-tau', g, h[1])
        at = (x[0] + got * v[0], x[1] + got * v[1])
        c.close(norm(at), rad, 'touch-at-tau', rtol=1e-6)
        c.nontrivial(x.tolist(), v.tolist(), rad)
    c.sample((kind, got))


@section('touching', 60, 4000)
def touching(c):
    """Pairs whose circles just touch in passing (exact in binary): there is
    no collision, and nothing undefined gets into forces and gradients."""
    r = c.rng
    rt = r.randint(1, 8) / 8
    ahead = r.randint(1, 40) / 4
    speed = r.randint(1, 8) / 2
    x, v = (ahead, r.choice([-rt, rt])), (-speed, 0.0)
    for _ in range(r.randrange(4)):
        x, v = (-x[1], x[0]), (-v[1], v[0])
    x, v = np.array(x), np.array(v)
    got, grad = c.call('time_to_collision', P.time_to_collision_circle_circle,
                       x, v, rt)
    c.check(math.isnan(got) or abs(got - ahead / speed) < 1e-6 * ahead,
            'touching:tau', got)
    c.check(np.all(np.isfinite(grad)), 'touching:gradient', grad)
    model = r.choice(['circular', 'three_circle'])
    agents = np.zeros(2, dtype=DTYPES[model])
    for g in agents:
        fill(r, g, model, (0.0, 0.0))
    agents['radius'] = rt / 2
    agents[0]['position'], agents[1]['position'] = x, (0.0, 0.0)
    agents[0]['velocity'], agents[1]['velocity'] = v, (0.0, 0.0)
    if model == 'three_circle':     # shoulders within the torso
        agents['r_t'] = rt / 2
        agents['r_s'] = agents['r_ts'] = rt / 16
        for g in agents:
            place(g, model)
    for f in c.call('force_social_' + model, FORCES[model], agents, 0, 1):
        c.check(np.all(np.isfinite(f)) and norm(vec(f)) <= F_MAX * (1 + 1e-9),
                'touching:force', model, f)
    c.nontrivial(model, x.tolist(), v.tolist(), rt)
