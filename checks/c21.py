"""Crowds from sparse to heavily overlapping (clusters, grids on cell borders,
rows, negative and far coordinates, own constants, standing and running) pushed
through one interaction pass. The oracle sums the documented pair laws over all
pairs; further monitors permute the crowd, change the cell size and watch every
attribute that must not change. Non-trivial: at least one pair in range and one
out of range, or at least three agents in range."""
import math

import numpy as np

from crowddynamics.core.interactions import agent_agent_block_list
from crowddynamics.simulation.logic import AgentAgentInteractions
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from exact import parts
from crowd import DTYPES, compare, fill, place
from harness import section
from physics import SIGHT, Unclear, pair_effect, vec
from sims import diff_fields, flags, make_agents, records_equal, snapshot

RULE = __doc__


def positions(r, n):
    kind = r.choice(['uniform', 'cluster', 'grid', 'row', 'pairs'])
    off = r.choice([(0.0, 0.0), (-7.3, -41.9), (123.4, -5.0)])
    side = r.choice([1.0, 4.0, 12.0, 30.0])
    out = []
    for k in range(n):
        if kind == 'uniform':
            p = (r.uniform(0, side), r.uniform(0, side))
        elif kind == 'cluster':
            m = k % 3
            p = (m * 5 + r.gauss(0, .6), (m % 2) * 4 + r.gauss(0, .6))
        elif kind == 'grid':
            # on the borders of cells, slightly to either side
            p = (3.6 * (k % 4) + r.uniform(-.05, .05),
                 3.6 * (k // 4) + r.uniform(-.05, .05))
        elif kind == 'row':
            p = (k * r.choice([.4, .9, 2.0]), r.uniform(-.2, .2))
        else:
            q = out[-1] if k % 2 and out else (r.uniform(0, side),
                                               r.uniform(0, side))
            p = (q[0] + r.uniform(-.5, .5), q[1] + r.uniform(-.5, .5)) \
                if k % 2 else q
            out.append(p)
            continue
        out.append(p)
    return [(p[0] + off[0], p[1] + off[1]) for p in out]


def crowd(c, model, n, same=False):
    r = c.rng
    a = np.zeros(n, dtype=DTYPES[model])
    run = r.choice([0.0, 1.0, 1.0, 3.0])
    for k, p in enumerate(positions(r, n)):
        fill(r, a[k], model, p)
        a[k]['velocity'] = (run * r.uniform(-1, 1), run * r.uniform(-1, 1))
        for name in ('mass', 'radius', 'r_t', 'r_s', 'r_ts', 'tau_0', 'k_soc',
                     'mu', 'kappa', 'damping'):
            if same and name in a.dtype.names:
                a[k][name] = a[0][name]
        place(a[k], model)
        if r.random() < .5:
            a[k]['force'] = (r.uniform(-9, 9), r.uniform(-9, 9))
            if model == 'three_circle':
                a[k]['torque'] = r.uniform(-9, 9)
    flags(r, a)
    return a


def extent(a, model):
    return max(max(math.dist(x, q[0][0]) + rad for x, rad in q)
               for q in (parts(rec, model) for rec in a))


def oracle(a, model):
    n = len(a)
    F, T = np.zeros((n, 2)), np.zeros(n)
    tol = np.full(n, 1e-12)
    tags = {}
    for i in range(n):
        for j in range(i + 1, n):
            ((fi, ti), (fj, tj)), (ei, ej), tag = pair_effect(a[i], a[j],
                                                              model)
            F[i] += fi
            F[j] += fj
            T[i] += ti
            T[j] += tj
            tol[i] += ei
            tol[j] += ej
            tags[tag] = tags.get(tag, 0) + 1
    return F, T, tol + 1e-12 * (abs(F).max(initial=0) + abs(T).max(initial=0)), \
        tags


@section('pass', 160, 8000)
def one_pass(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([1, 2, 3, 6, 12, 20]) if r.random() < .97 else 60
    a = crowd(c, model, n)
    try:
        F, T, tol, tags = oracle(a, model)
    except Unclear:
        c.skip()
    if n > 20:
        c.count('large crowds')
    if tol.max() > 1e-3 * (1 + abs(F).max()):
        c.skip()
    least = SIGHT + 2 * extent(a, model) + 1e-9
    sizes = [least, least * r.uniform(1, 2), least * r.choice([3, 10])]
    r.shuffle(sizes)
    for size in sizes[:2]:
        b = snapshot(a)
        c.call('agent_agent_block_list', agent_agent_block_list, b, size)
        compare(c, a, b, F, T, tol, model, '')
    # permuted crowd
    perm = r.sample(range(n), n)
    p = a[perm].copy()
    q = p.copy()
    agent_agent_block_list(q, sizes[2])
    compare(c, p, q, F[perm], T[perm], tol[perm], model, 'permuted-')
    for tag, m in tags.items():
        c.count('pairs-' + tag, m)
    c.state('mix', model, n, tuple(sorted(tags)))
    hot = sum(m for t, m in tags.items() if t != 'far')
    if hot and (tags.get('far') or n > 2):
        c.nontrivial(a.tobytes())
    c.sample((model, n, tags))


@section('balance', 60, 3000)
def balance(c):
    """Identical agents: every pair is equal and opposite."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([2, 5, 10])
    a = crowd(c, model, n, same=True)
    b = snapshot(a)
    c.call('agent_agent_block_list', agent_agent_block_list, b,
           SIGHT + 2 * extent(a, model) + 1e-9)
    df = b['force'] - a['force']
    if not np.all(np.isfinite(df)):
        c.fail('not-finite', df)
    big = np.abs(df).max() + 1
    c.check(np.all(np.abs(df.sum(axis=0)) < 1e-8 * big), 'total-force',
            df.sum(axis=0), big)
    if np.abs(df).max() > 0:
        c.nontrivial(a.tobytes())
    c.sample((model, n, float(big)))


@section('node', 40, 2000)
def node(c):
    """The logic node on agents of a live simulation, with its default cell."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([2, 6, 12]) if r.random() < .92 else 80
    if c.index % 40 == 0:           # many agents, most cells with one of them
        n = 260
    sim = MultiAgentSimulation()
    sim.agents = make_agents(c, model, n, spread=r.choice([.7, .9, 2.5] if n < 99 else [2.5, 3.2]))
    flags(r, sim.agents.array)
    logic = c.call('construct', AgentAgentInteractions, sim)
    if extent(sim.agents.array, model) > .3:
        c.skip('wider than the default cell allows')
    for step in range(2):
        a = snapshot(sim.agents.array)
        try:
            F, T, tol, tags = oracle(a, model)
        except Unclear:
            c.skip()
        c.call('AgentAgentInteractions.update', logic.update)
        compare(c, a, sim.agents.array, F, T, tol, model, 'node-')
        # move the crowd, at random velocities
        arr = sim.agents.array
        for k in range(n):
            arr[k]['position'] = arr[k]['position'] + \
                (r.uniform(-.5, .5), r.uniform(-.5, .5))
            place(arr[k], model)
    if len(tags) > 1 or 'far' not in tags:
        c.nontrivial(a.tobytes())
    c.sample((model, n, tags))


@section('horizon', 120, 6000)
def horizon(c):
    """Pairs whose distance is just below (or above) the sight, anywhere
    relative to the cells that the first agent's position defines."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    sim = MultiAgentSimulation()
    n = r.choice([3, 5, 7])
    sim.agents = make_agents(c, model, n, spread=5.0)
    arr = sim.agents.array
    phi = r.choice([0.0, math.pi / 2, r.uniform(-math.pi, math.pi)])
    e = np.array((math.cos(phi), math.sin(phi)))
    for k in range(n):
        arr[k]['radius'] = r.choice([.3, .29, .25])
        if model == 'three_circle':
            arr[k]['r_ts'], arr[k]['r_s'], arr[k]['r_t'] = .18, .11, .2
            # the shoulders lie along the line between the two
            arr[k]['orientation'] = math.atan2(e[0], -e[1])
        place(arr[k], model)
    out, own = 1e-9, extent(arr, model)
    if own > .3 + out:
        c.skip('wider than the default cell allows')
    for k in range(1, n, 2):
        x = np.array((r.uniform(-9, 9), r.uniform(-9, 9)))
        ra, rb = (arr[m]['radius'] if model == 'circular' else own
                  for m in (k, k + 1))
        gap = SIGHT + r.choice([-1e-3, -.02, -.1, -.3, .01])
        v = r.uniform(.5, 2)
        for m, p, w in ((k, x, v), (k + 1, x + e * (gap + ra + rb), -v)):
            arr[m]['position'] = p
            arr[m]['velocity'] = w * e
            place(arr[m], model)
    a = snapshot(arr)
    try:
        F, T, tol, tags = oracle(a, model)
    except Unclear:
        c.skip()
    logic = c.call('construct', AgentAgentInteractions, sim)
    c.call('AgentAgentInteractions.update', logic.update)
    compare(c, a, arr, F, T, tol, model, 'horizon-')
    if len(tags) > 1 or 'far' not in tags:
        c.nontrivial(a.tobytes())
    c.sample((model, n, tags))
