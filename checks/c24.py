"""Agents of both models with random states, forces and step bounds (standing
crowds, extreme speeds, equal bounds, spinning bodies, arrays that are copies
and views) integrated one and many steps by each scheme and by the logic node.
Every step is compared with the documented formulas per agent; over histories
with steady forces the second differences of the positions are compared with the
exact parabola. Non-trivial: a moving or accelerated agent."""
import math

import numpy as np

from crowddynamics.core import integrator as I
from crowddynamics.simulation.agents import shoulders
from crowddynamics.simulation.logic import Integrator
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowd import DTYPES
from exact import parts
from harness import section
from sims import diff_fields, flags, make_agents, snapshot

RULE = __doc__
CAN_CHANGE = {
    'euler': {'circular': {'position', 'velocity'},
              'three_circle': {'position', 'velocity', 'orientation',
                               'angular_velocity', 'position_ls',
                               'position_rs'}},
    'verlet': {'circular': {'position', 'velocity', 'force_prev'},
               'three_circle': {'position', 'velocity', 'force_prev',
                                'orientation', 'angular_velocity',
                                'torque_prev', 'position_ls',
                                'position_rs'}}}
CAN_CHANGE['init'] = CAN_CHANGE['verlet']
RUN = {'euler': I.euler_integrator, 'verlet': I.velocity_verlet_integrator,
       'init': I.velocity_verlet_integrator_init}


def state(c, model, n):
    r = c.rng
    a = np.zeros(n, dtype=DTYPES[model])
    fast = 10 ** r.choice([r.uniform(-3, 2), r.uniform(-9, -3)])
    slow = fast if fast < 1e-3 and r.random() < .5 else 1.0
    still = r.random() < .2
    flags(r, a)
    for k in range(n):
        g = a[k]
        g['mass'] = r.uniform(5, 120)
        g['radius'] = .25
        g['target_velocity'] = slow * r.choice([1.25, r.uniform(.1, 4), 0.0])
        g['position'] = (r.uniform(-50, 50), r.uniform(-50, 50))
        if not still:
            g['velocity'] = (fast * r.uniform(-1, 1), fast * r.uniform(-1, 1))
        g['force'], g['force_prev'] = [
            (r.choice([0.0, r.uniform(-1e3, 1e3)]), r.uniform(-1e3, 1e3))
            if r.random() < .9 else (0.0, 0.0) for _ in range(2)]
        if model == 'three_circle':
            g['r_t'], g['r_s'], g['r_ts'] = .15, .09, r.uniform(.05, .2)
            g['inertia_rot'] = r.uniform(.1, 9)
            g['orientation'] = r.choice([math.pi, -math.pi, 3.1, -3.1,
                                         r.uniform(-math.pi, math.pi)])
            g['angular_velocity'] = r.choice([0.0, r.uniform(-30, 30)])
            g['torque'] = r.choice([r.uniform(-100, 100)] * 4 + [0.0])
            g['torque_prev'] = r.choice([r.uniform(-100, 100)] * 4 + [0.0])
            q = parts(g, model)
            g['position_ls'], g['position_rs'] = q[1][0], q[2][0]
    return a


def bounds(r):
    lo = 10 ** r.uniform(-4, -1)
    hi = r.choice([lo, lo * r.uniform(1, 50), lo * 1000])
    return lo, hi


def expected_dt(a, lo, hi):
    v = max([math.hypot(*map(float, g['velocity'])) for g in a] or [0.0])
    if v == 0:
        return hi
    mid = 1.1 * hi * max(float(g['target_velocity']) for g in a) / v
    return min(max(mid, lo), hi)


def same_angle(c, got, want, mech, *detail):
    c.check(abs(math.remainder(float(got) - want, 2 * math.pi)) <=
            1e-9 * (1 + abs(want)), mech, got, want, *detail)
    c.check(abs(got) <= math.pi + 1e-12, mech + '-range', got)


def judge(c, a, b, dt, scheme, model, mech=''):
    for k in range(len(a)):
        p, q = a[k], b[k]
        f = p['force'] / p['mass']
        old = p['force_prev'] / p['mass']
        if scheme != 'verlet':
            v = p['velocity'] + f * dt
            x = p['position'] + p['velocity'] * dt + f / 2 * dt ** 2
        else:
            v = p['velocity'] + (old + f) / 2 * dt
            x = p['position'] + v * dt + f / 2 * dt ** 2
        if scheme != 'euler':
            c.close(q['force_prev'], p['force'], mech + 'previous-force',
                    rtol=0, atol=0)
            if model == 'three_circle':
                c.close(q['torque_prev'], p['torque'],
                        mech + 'previous-torque', rtol=0, atol=0)
        s = np.abs(p['velocity']).max() * dt + np.abs(f).max() * dt ** 2 + \
            np.abs(old).max() * dt ** 2
        sv = np.abs(p['velocity']).max() + (np.abs(f).max() +
                                            np.abs(old).max()) * dt
        c.close(q['velocity'], v, mech + 'velocity', rtol=1e-10,
                atol=1e-10 * sv, detail=(scheme, model, k))
        c.close(q['position'], x, mech + 'position', rtol=1e-12,
                atol=1e-10 * s + 1e-13, detail=(scheme, model, k))
        if model == 'three_circle':
            m = float(p['torque'] / p['inertia_rot'])
            o = float(p['torque_prev'] / p['inertia_rot'])
            w0 = float(p['angular_velocity'])
            if scheme != 'verlet':
                w = w0 + m * dt
                phi = float(p['orientation']) + w0 * dt + m / 2 * dt ** 2
            else:
                w = w0 + (m + o) / 2 * dt
                phi = float(p['orientation']) + w * dt + m / 2 * dt ** 2
            c.close(q['angular_velocity'], w, mech + 'angular-velocity',
                    rtol=1e-10, atol=1e-10 * (abs(w0) + (abs(m) + abs(o)) *
                                              dt))
            same_angle(c, q['orientation'], phi, mech + 'orientation', scheme)
            z = parts(q, model)
            c.close(q['position_ls'], z[1][0], mech + 'left-shoulder',
                    rtol=1e-10, atol=1e-10, detail=scheme)
            c.close(q['position_rs'], z[2][0], mech + 'right-shoulder',
                    rtol=1e-10, atol=1e-10, detail=scheme)
    extra = set(diff_fields(a, b)) - CAN_CHANGE[scheme][model]
    c.check(not extra, mech + 'other-attribute', sorted(extra))


@section('step', 300, 20000)
def step(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    scheme = r.choice(['euler', 'verlet', 'init'])
    n = r.choice([1, 1, 2, 8]) if r.random() < .97 else \
        r.choice([70, 70, 700])
    a = state(c, model, n)
    lo, hi = bounds(r)
    want = expected_dt(a, lo, hi)
    got = c.call('adaptive_timestep', I.adaptive_timestep, a, lo, hi)
    c.close(got, want, 'adaptive-timestep', rtol=1e-9)
    c.check(lo <= got <= hi, 'step-outside-bounds', got, lo, hi)
    b = snapshot(a)
    kind = r.randrange(3)
    if kind == 1:           # a view into a larger array
        big = np.zeros(2 * n + 3, dtype=a.dtype)
        b = big[1:1 + n]
        b[...] = a
    elif kind == 2:         # an array that went through a file-like copy
        b = np.frombuffer(bytearray(a.tobytes()),
                          dtype=np.dtype(a.dtype.descr)) if n else b
    dt = c.call(scheme, RUN[scheme], b, lo, hi)
    c.close(dt, want, 'step-used', rtol=1e-9)
    judge(c, a, b, dt, scheme, model)
    c.state('step', scheme, model, got == lo, got == hi, kind)
    if n:
        c.nontrivial(a.tobytes(), scheme)
    c.sample((model, scheme, n, lo, hi, dt))


@section('history', 60, 2500)
def history(c):
    """Steady forces: exact parabolas; no forces: straight lines."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    scheme = r.choice(['euler', 'verlet'])
    n = r.choice([1, 3])
    a = state(c, model, n)
    free = r.random() < .4
    for k in range(n):
        a[k]['position'] = (r.uniform(-1, 1), r.uniform(-1, 1))
        if free:
            a[k]['force'] = 0
            if model == 'three_circle':
                a[k]['torque'] = 0
        a[k]['force_prev'] = a[k]['force']
        if model == 'three_circle':
            a[k]['torque_prev'] = a[k]['torque']
    dt = r.choice([.01, .001])
    xs = [a['position'].copy()]
    ls = []
    acc = a['force'] / a['mass'][:, None]
    for _ in range(r.choice([5, 30])):
        before = snapshot(a)
        got = c.call(scheme, RUN[scheme], a, dt, dt)
        c.close(got, dt, 'fixed-step', rtol=0, atol=0)
        judge(c, before, a, dt, scheme, model)
        xs.append(a['position'].copy())
        ls.append(a['velocity'].copy())
    for k in range(1, len(xs) - 1):
        second = xs[k + 1] - 2 * xs[k] + xs[k - 1]
        c.close(second, acc * dt * dt, 'second-difference', rtol=1e-6,
                atol=1e-13 * (1 + np.abs(xs[k]).max()) * 10,
                detail=(scheme, free))
    c.nontrivial(scheme, a.tobytes())
    c.sample((model, scheme, n, len(xs), free))


@section('shoulders', 100, 5000)
def shoulder_offsets(c):
    r = c.rng
    a = state(c, 'three_circle', r.choice([1, 5]))
    for g in a:
        g['orientation'] = r.uniform(-math.pi, math.pi)
        g['position'] = (r.uniform(-9, 9), r.uniform(-9, 9))
    b = snapshot(a)
    c.call('shoulders', shoulders, b)
    for g in b:
        z = parts(g, 'three_circle')
        c.close(g['position_ls'], z[1][0], 'left', rtol=1e-10, atol=1e-12)
        c.close(g['position_rs'], z[2][0], 'right', rtol=1e-10, atol=1e-12)
    c.check(set(diff_fields(a, b)) <= {'position_ls', 'position_rs'},
            'shoulders-write', diff_fields(a, b))
    c.nontrivial(a.tobytes())
    c.sample(len(a))


@section('node', 60, 2500)
def node(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([1, 4])
    sim = MultiAgentSimulation()
    sim.agents = make_agents(c, model, n)
    lo, hi = bounds(r)
    kw = r.choice([{}, dict(dt_min=lo, dt_max=hi)])
    logic = c.call('construct', Integrator, sim, **kw)
    lo, hi = kw.get('dt_min', .01), kw.get('dt_max', .01)
    total = 0.0
    arr = sim.agents.array
    flags(r, arr)
    for k in range(r.choice([1, 6])):
        arr['force'] = 0
        for g in arr:
            g['force'] = (r.uniform(-300, 300), r.uniform(-300, 300))
            if model == 'three_circle':
                g['torque'] = r.uniform(-9, 9)
        before = snapshot(arr)
        want = expected_dt(before, lo, hi)
        c.call('Integrator.update', logic.update)
        c.close(sim.data['dt'], want, 'data-dt', rtol=1e-9)
        total += want
        c.close(sim.data['time_tot'], total, 'data-time', rtol=1e-9)
        judge(c, before, arr, want, 'verlet', model, 'node-')
    c.nontrivial(arr.tobytes())
    c.sample((model, n, kw, total))
