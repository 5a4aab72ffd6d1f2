"""Histories of group placements (several groups, both models, generators and
callables that log every position they give, crowded areas with many refusals,
agents of very different sizes, walls) watched by a log of what was given and by
an independent overlap oracle over all parts of all pairs. Non-trivial: at least
three agents placed after at least one refusal, or several groups."""
import math

import numpy as np

from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.exceptions import CrowdDynamicsException
from crowddynamics.simulation.agents import AgentGroup, Agents
from exact import gap, parts, wall_gap
from harness import section
from sims import MODELS, attributes, records_equal

RULE = __doc__
EPS = 1e-9


class Source(object):
    """Position source that logs what it gave."""

    def __init__(self, give, limit=None):
        self.give, self.limit, self.log = give, limit, []

    def __call__(self):
        v = self.give()
        self.log.append(np.array(v, dtype=float))
        return v

    def generator(self):
        while self.limit is None or len(self.log) < self.limit:
            yield self()


def walls(r, area):
    n = r.choice([0, 1, 3])
    a = np.zeros(n, dtype=obstacle_type_linear)
    for k in range(n):
        a[k]['p0'] = [r.uniform(-area, area), r.uniform(-area, area)]
        a[k]['p1'] = [r.uniform(-area, area), r.uniform(-area, area)]
    if n == 3 and r.random() < .3:      # behind many that are far away
        m = r.choice([40, 120])
        far = np.zeros(m, dtype=obstacle_type_linear)
        far['p0'] = [(5 * area + k, r.uniform(-area, area)) for k in range(m)]
        far['p1'] = far['p0'] + (.5, 1)
        a = np.concatenate((far, a))
    return a


def check_state(c, agents, model, placed, obstacles_of, mech=''):
    """``placed``: records in order; every record once, no overlaps."""
    arr = agents.array
    c.equal(len(arr), len(placed), 'array-length')
    all_parts = [parts(rec, model) for rec in arr]
    for i in range(len(arr)):
        if model == 'three_circle':
            for name, (x, _) in zip(('position', 'position_ls',
                                     'position_rs'), all_parts[i]):
                c.close(arr[i][name], x, 'shoulders', rtol=1e-9, atol=1e-9,
                        detail=name)
        for j in range(i):
            g = gap(all_parts[i], all_parts[j])
            c.check(g > -EPS, 'agents-overlap', i, j, g,
                    arr[i]['position'], arr[j]['position'])
        c.count('pairs_checked', i)
        for w in obstacles_of[i]:
            g = wall_gap(all_parts[i], w['p0'], w['p1'])
            c.check(g > -EPS, 'obstacle-overlap', i, g, arr[i]['position'], w)
    c.check(arr.flags.c_contiguous, 'not-contiguous')


@section('history', 260, 12000, weight=3.0)
def history(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    cls = MODELS[model]
    kw = {}
    scale = r.choice([1.0, 1.0, 0.2, 4.0])
    if r.random() < .5:
        kw['cell_size'] = r.choice([.3, .6, 1.0, 2.5]) * scale
    agents = c.call('construct', Agents, agent_type=cls, **kw)
    area = r.choice([.5, 1.5, 3.0, 8.0]) * scale
    placed, obstacles_of = [], []
    refusals, groups = 0, 0
    for g in range(r.choice([1, 1, 2, 3])):
        size = r.choice([1, 2, 5, 12, 25]) if r.random() < .97 else 90
        mix = r.random() < .5

        def attrs():
            d = attributes(c, model)
            if mix or scale != 1:
                rad = scale * r.choice([.1, .25, r.uniform(.05, .6)])
                d['radius'] = rad
            if wide and r.random() < .6:
                # every measure by itself: a body type would set its own
                del d['body_type']
                d.update(radius=scale * r.uniform(.1, .4), mass=70.0,
                         r_t=scale * r.uniform(.1, .4),
                         r_ts=scale * r.uniform(.3, 1.5),
                         r_s=scale * r.uniform(.05, .6))
            return d
        wide = model == 'three_circle' and r.random() < .25
        members = [attrs() for _ in range(size)]
        group = c.call('group', AgentGroup, agent_type=cls, size=size,
                       attributes=members)
        if r.random() < .7:
            give = lambda: np.array([r.uniform(-area, area),
                                     r.uniform(-area, area)])
        else:
            # lattice positions: exact repetitions and touching neighbours
            step = scale * r.choice([.25, .5, .6])
            m = max(1, int(area / step))
            give = lambda: np.array([r.randint(-m, m) * step,
                                     r.randint(-m, m) * step])
        limited = r.random() < .15
        src = Source(give, limit=r.randint(0, 12 * size) if limited else None)
        obs = None if r.random() < .4 else walls(r, area)
        before = agents.array.copy()
        use_gen = limited or r.random() < .5
        gen = src.generator() if use_gen else src
        c.note('group', model, 'size', size, 'area', area, 'obstacles',
               None if obs is None else obs.tolist(),
               'generator' if use_gen else 'callable', 'limit', src.limit)
        kwargs = {} if obs is None and r.random() < .5 else \
            dict(obstacles=obs)
        try:
            agents.add_non_overlapping_group(group, position_gen=gen,
                                             **kwargs)
            exhausted = False
        except (StopIteration, RuntimeError):
            if not limited or len(src.log) < src.limit:
                raise
            exhausted = True
        groups += 1
        arr = agents.array
        n0 = len(before)
        c.check(len(arr) >= n0 and records_equal(arr[:n0], before),
                'former-agents-changed', n0)
        new = arr[n0:]
        c.check(len(new) <= size, 'too-many', len(new), size)
        given = [p.tobytes() for p in src.log]
        # placed positions are a subsequence of the given ones
        it = iter(given)
        for rec in new:
            want = np.ascontiguousarray(rec['position']).tobytes()
            c.check(any(x == want for x in it), 'position-not-given',
                    rec['position'])
        if len(new) < size:
            c.check(exhausted or len(src.log) - len(new) >= size,
                    'gave-up-early', len(new), size, len(src.log))
        refusals += len(src.log) - len(new)
        for k, rec in enumerate(new):
            # the k-th member
            want = members[k]
            for n in ('velocity', 'target_direction'):
                c.check(np.allclose(rec[n], want[n], atol=1e-12), 'member', k,
                        n)
            c.equal(float(rec['radius']), float(group.members[k].radius),
                    'member', k, 'radius')
        placed = list(arr)
        obstacles_of += [[] if obs is None else list(obs)] * len(new)
        check_state(c, agents, model, placed, obstacles_of)
        # a source must be refused exactly for a reason
        c.count('placed', len(new))
        c.count('refused', len(src.log) - len(new))
    c.count('groups', groups)
    if len(placed) >= 3 and (refusals or groups > 1):
        c.nontrivial(model, scale, area, len(placed), refusals,
                     placed[0]['position'])
    c.sample((model, scale, area, kw, len(placed), refusals))


@section('free-space', 120, 5000)
def free_space(c):
    """Every position is free: each must be taken, in order, at once; and the
    wrong kind of group is refused without a change."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    cls = MODELS[model]
    agents = c.call('construct', Agents, agent_type=cls)
    spots = [(float(i) * 2.0, float(j) * 2.0) for i in range(-4, 5)
             for j in range(-4, 5)]
    r.shuffle(spots)
    pos = 0
    for g in range(r.choice([1, 2, 4])):
        size = r.choice([1, 3, 9])
        group = AgentGroup(agent_type=cls, size=size, attributes=[
            attributes(c, model) for _ in range(size)])
        src = Source(iter([np.array(p) for p in spots[pos:]]).__next__)
        c.call('add', agents.add_non_overlapping_group, group,
               position_gen=src,
               obstacles=r.choice([None,
                                   np.zeros(0, dtype=obstacle_type_linear)]))
        c.equal(len(src.log), size, 'free-positions-refused')
        pos += size
        c.equal([tuple(p) for p in agents.array['position']], spots[:pos],
                'positions')
    other = {'circular': 'three_circle', 'three_circle': 'circular'}[model]
    wrong = AgentGroup(agent_type=MODELS[other], size=2, attributes=[
        attributes(c, other) for _ in range(2)])
    before = agents.array.copy()
    c.raises(CrowdDynamicsException, 'wrong-type',
             agents.add_non_overlapping_group, wrong,
             position_gen=lambda: np.array([500.0, 500.0]))
    c.check(records_equal(agents.array, before), 'refused-group-changed-array')
    c.nontrivial(model, pos, spots[:pos])
    c.sample((model, pos))


@section('must-refuse', 150, 6000)
def must_refuse(c):
    """A single offered position that clearly overlaps is never taken; one
    that clearly does not is always taken."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    cls = MODELS[model]
    kw = dict(cell_size=r.choice([.1, .35, .6, 3.0]))
    agents = Agents(agent_type=cls, **kw)
    scale = r.choice([.5, 1.0, 3.0, 8.0])

    def one():
        d = attributes(c, model)
        d['radius'] = scale * r.uniform(.1, .5)
        return AgentGroup(agent_type=cls, size=1, attributes=[d])
    origin = np.array([r.uniform(-20, 20), r.uniform(-20, 20)])
    first = one()
    c.call('add', agents.add_non_overlapping_group, first,
           position_gen=lambda: origin)
    c.equal(len(agents.array), 1, 'first')
    group = one()
    m = group.members[0]
    probe = agents.array[:1].copy()
    for n in ('radius', 'r_t', 'r_s', 'r_ts'):
        probe[n] = getattr(m, n)
    if model == 'three_circle':
        probe['orientation'] = m.orientation
    reach = float(agents.array[0]['radius'] + m.radius)
    d = r.uniform(.3, 1.3) * reach
    phi = r.uniform(-math.pi, math.pi)
    spot = origin + d * np.array([math.cos(phi), math.sin(phi)])
    probe['position'] = spot
    g = gap(parts(agents.array[0], model), parts(probe[0], model))
    obs = None
    if r.random() < .4:
        obs = np.zeros(1, dtype=obstacle_type_linear)
        w = spot + reach * np.array([r.uniform(-1, 1), r.uniform(-1, 1)])
        obs[0]['p0'] = w
        obs[0]['p1'] = w + reach * np.array([r.uniform(-3, 3),
                                             r.uniform(-3, 3)])
        g = min(g, wall_gap(parts(probe[0], model), obs[0]['p0'],
                            obs[0]['p1']))
    if abs(g) < 1e-6:
        c.skip()
    # the probe may have been tried elsewhere before
    tried = r.random() < .5
    if tried:
        seq = iter([origin.copy()] + [spot] * 20)
    else:
        seq = iter([spot] * 20)
    c.note(model, 'cell', kw, 'gap', g, 'tried before', tried)
    c.call('add', agents.add_non_overlapping_group, group,
           position_gen=lambda: next(seq), obstacles=obs)
    c.equal(len(agents.array), 2 if g > 0 else 1, 'decision', 'gap', g,
            'cell size', kw['cell_size'])
    if g > 0:
        c.check(np.array_equal(agents.array[1]['position'], spot), 'position')
    c.nontrivial(model, kw, scale, g, tried)
    c.state('decision', model, g > 0, obs is not None, tried,
            kw['cell_size'] < reach)
    c.sample((model, kw, scale, g))
