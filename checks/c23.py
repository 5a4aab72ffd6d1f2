"""Agents with every mass, characteristic time, speed, direction and orientation
(on, near and across the seam at +-pi, several turns away, exactly at the
target, at rest and turning) through the laws, the array passes and the logic
nodes of live simulations. Non-trivial: an agent not at its target."""
import math

import numpy as np

from crowddynamics.core.motion.adjusting import force_adjust, \
    force_adjust_agents, torque_adjust, torque_adjust_agents
from crowddynamics.core.steering.orientation import \
    orient_towards_target_direction
from crowddynamics.simulation.logic import Adjusting, Orientation
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowd import DTYPES, compare
from harness import section
from sims import diff_fields, flags, make_agents, snapshot

RULE = __doc__


def turn(a, b):
    """Shorter way from a to b and whether the way is clear."""
    d = math.remainder(b - a, 2 * math.pi)
    return d, math.pi - abs(d) > 1e-9 * (1 + abs(a) + abs(b))


def angle(r):
    return r.choice([0.0, math.pi, -math.pi, math.pi / 2,
                     r.choice([-1, 1]) * (math.pi - 10 ** r.uniform(-12, -1)),
                     r.uniform(-math.pi, math.pi)])


@section('force-law', 400, 40000)
def force_law(c):
    r = c.rng
    m, tau = 10 ** r.uniform(-1, r.choice([2.5, 5])), 10 ** r.uniform(-2, 1)
    v0 = r.choice([0.0, 1.25, r.uniform(0, 5)])
    b = r.uniform(-math.pi, math.pi)
    e0 = r.choice([(0.0, 0.0), (1.0, 0.0), (math.cos(b), math.sin(b))])
    at = r.random() < .2
    v = (v0 * e0[0], v0 * e0[1]) if at else r.choice(
        [(0.0, 0.0), (r.uniform(-4, 4), r.uniform(-4, 4))])
    a, b_ = np.array(e0), np.array(v)
    keep = a.copy(), b_.copy()
    f = c.call('force_adjust', force_adjust, m, tau, v0, a, b_)
    c.check(np.array_equal(a, keep[0]) and np.array_equal(b_, keep[1]),
            'argument-changed')
    want = [m / tau * (v0 * e0[k] - v[k]) for k in (0, 1)]
    c.close(f, want, 'adjusting-force', rtol=1e-9, atol=1e-12 * m / tau * 10)
    if at:
        c.check(abs(f[0]) + abs(f[1]) < 1e-12 * m / tau * 10,
                'not-zero-at-target', f)
    if v == (0.0, 0.0):
        c.check(f[0] * e0[0] + f[1] * e0[1] >= 0, 'away-from-target', f, e0)
    if not at:
        c.nontrivial(m, tau, v0, e0, v)
    c.sample((m, tau, v0, e0, v))


@section('torque-law', 400, 40000)
def torque_law(c):
    r = c.rng
    inertia, tau = 10 ** r.uniform(-1, 1.5), 10 ** r.uniform(-2, 1)
    w0 = r.choice([0.0, 4 * math.pi, r.uniform(0, 20)])
    p = angle(r)
    q = r.choice([p, angle(r), angle(r), r.uniform(-20, 20)])
    w = r.choice([0.0, 0.0, r.uniform(-10, 10)])
    t = c.call('torque_adjust', torque_adjust, inertia, tau, q, p, w0, w)
    d, clear = turn(p, q)
    unit = inertia / tau
    tiny = unit * (1e-9 * w0 * (1 + abs(q)) + 1e-12)
    options = [d] if clear else [d, -d]
    c.check(any(abs(t - unit * (x / math.pi * w0 - w)) <= tiny + 1e-9 *
                abs(unit * w) for x in options), 'adjusting-torque', t,
            unit * (d / math.pi * w0 - w), (inertia, tau, q, p, w0, w))
    if w == 0 and clear:
        c.check(t * d >= -tiny * abs(d), 'turns-away', t, d)
        c.check(abs(t) <= unit * w0 * (1 + 1e-9), 'torque-too-large', t)
    if p == q:
        c.check(abs(t + unit * w) <= tiny + 1e-9 * abs(unit * w),
                'not-zero-at-target', t)
    # whole turns do not matter
    k = r.choice([-2, -1, 1, 2])
    t2 = torque_adjust(inertia, tau, q + 2 * math.pi * k, p, w0, w)
    if clear:
        c.close(t2, t, 'whole-turns', rtol=1e-8, atol=tiny + unit * w0 * 1e-8)
    c.state('turn', round(d, 1), clear)
    if p != q:
        c.nontrivial(inertia, tau, q, p, w0, w)
    c.sample((q, p, d, t))


def expected(a, model):
    n = len(a)
    F, T = np.zeros((n, 2)), np.zeros(n)
    alt = np.zeros(n)
    tol = np.zeros(n)
    for k in range(n):
        g = {x: a[k][x] for x in a.dtype.names}
        s = float(g['mass']) / float(g['tau_adj'])
        F[k] = s * (float(g['target_velocity']) * g['target_direction'] -
                    g['velocity'])
        tol[k] = 1e-9 * (np.abs(F[k]).max() + s) + 1e-9
        if model == 'three_circle':
            u = float(g['inertia_rot']) / float(g['tau_rot'])
            d, clear = turn(float(g['orientation']),
                            float(g['target_orientation']))
            w0 = float(g['target_angular_velocity'])
            w = float(g['angular_velocity'])
            T[k] = u * (d / math.pi * w0 - w)
            alt[k] = T[k] if clear else u * (-d / math.pi * w0 - w)
            tol[k] += 1e-8 * u * (w0 + abs(w))
    return F, T, alt, tol


def fill(r, a, model):
    flags(r, a)
    for k in range(len(a)):
        b = r.uniform(-3.2, 3.2)
        a[k]['mass'] = r.choice([r.uniform(10, 120), 10 ** r.uniform(-1, 5)])
        a[k]['tau_adj'] = r.choice([.5, r.uniform(.05, 3)])
        a[k]['target_velocity'] = r.choice([0.0, r.uniform(0, 4)])
        a[k]['target_direction'] = r.choice(
            [(0.0, 0.0), (math.cos(b), math.sin(b))])
        a[k]['velocity'] = r.choice([(0.0, 0.0), (r.uniform(-3, 3),
                                                  r.uniform(-3, 3))])
        a[k]['force'] = (r.uniform(-50, 50), r.uniform(-50, 50))
        if model == 'three_circle':
            a[k]['inertia_rot'] = r.uniform(.1, 9)
            a[k]['tau_rot'] = r.choice([.2, r.uniform(.05, 3)])
            a[k]['target_angular_velocity'] = r.uniform(0, 15)
            a[k]['angular_velocity'] = r.choice([0.0, r.uniform(-9, 9)])
            a[k]['orientation'] = angle(r)
            a[k]['target_orientation'] = r.choice(
                [angle(r), float(a[k]['orientation'])])
            a[k]['torque'] = r.uniform(-9, 9)


def judge(c, before, after, model, mech, rotate=True):
    F, T, alt, tol = expected(before, model)
    if model == 'three_circle' and rotate:
        got = after['torque'] - before['torque']
        # half a turn away either direction is shortest
        T = np.where(np.abs(got - alt) < np.abs(got - T), alt, T)
    if not rotate:
        T = np.zeros(len(before))
    compare(c, before, after, F, T, tol, model, mech)


@section('array', 150, 8000)
def array(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([0, 1, 4, 12])
    a = np.zeros(n, dtype=DTYPES[model])
    fill(r, a, model)
    b = snapshot(a)
    c.call('force_adjust_agents', force_adjust_agents, b)
    judge(c, a, b, model, 'force-pass:', rotate=False)
    c.check(set(diff_fields(a, b)) <= {'force'}, 'force-pass:writes',
            diff_fields(a, b))
    if model == 'three_circle':
        c.call('torque_adjust_agents', torque_adjust_agents, b)
        judge(c, a, b, model, 'torque-pass:')
        d = snapshot(b)
        c.call('orient', orient_towards_target_direction, d)
        c.check(set(diff_fields(b, d)) <= {'target_orientation'},
                'orientation-writes', diff_fields(b, d))
        for k in range(n):
            x, y = map(float, b[k]['target_direction'])
            if x or y:
                c.check(abs(math.remainder(float(
                    d[k]['target_orientation']) - math.atan2(y, x),
                    2 * math.pi)) < 1e-9 and abs(
                        d[k]['target_orientation']) <= math.pi + 1e-9,
                    'target-orientation', d[k]['target_orientation'], (x, y))
    # independent agents: alone the same as in the crowd
    if n > 1:
        k = r.randrange(n)
        one = a[k:k + 1].copy()
        force_adjust_agents(one)
        c.close(one['force'][0], b['force'][k], 'not-independent', rtol=1e-12)
    if n:
        c.nontrivial(a.tobytes())
    c.sample((model, n))


@section('nodes', 60, 3000)
def nodes(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([1, 4, 9])
    sim = MultiAgentSimulation()
    sim.agents = make_agents(c, model, n)
    adj, ori = Adjusting(sim), Orientation(sim)
    arr = sim.agents.array
    flags(r, arr)
    for step in range(3):
        if step:
            for k in range(n):
                b = r.uniform(-3.2, 3.2)
                arr[k]['target_direction'] = (math.cos(b), math.sin(b))
                arr[k]['velocity'] = (r.uniform(-1, 1), r.uniform(-1, 1))
        a = snapshot(arr)
        c.call('Orientation.update', ori.update)
        if model == 'circular':
            c.equal(diff_fields(a, arr), [], 'orientation-of-circles')
        else:
            c.check(set(diff_fields(a, arr)) <= {'target_orientation'},
                    'orientation-writes', diff_fields(a, arr))
            for k in range(n):
                x, y = map(float, arr[k]['target_direction'])
                c.check(abs(math.remainder(float(
                    arr[k]['target_orientation']) - math.atan2(y, x),
                    2 * math.pi)) < 1e-9, 'target-orientation', k)
        a = snapshot(arr)
        c.call('Adjusting.update', adj.update)
        judge(c, a, arr, model, 'node:')
    c.nontrivial(a.tobytes())
    c.sample((model, n))
