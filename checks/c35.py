"""Whole simulations: crowds of both models in random rooms (walls, pillars,
lines, exits as lines or areas) with logic trees assembled from the library's
nodes in many arrangements, agents with, without and with impossible targets,
followers and leaders, agents that begin outside; and all simulations shipped
as examples. Every node update is wrapped: the wrapper compares the whole agent
array, the shared data and the geometry before and after, and looks for values
that are not finite. Runs are repeated from the same seed, also in fresh
processes, and continued from copied states with forces of garbage. Kernels run
interpreted, so that an access outside of an array is an error. Non-trivial:
agents that move, interact and steer; several nodes."""
import inspect
import os
import random
import subprocess
import sys

import numpy as np
from shapely.geometry import LineString, Polygon, box

from crowddynamics.examples import collective_motion, simulations
from crowddynamics.simulation import logic as L
from crowddynamics.simulation.agents import Agents, AgentGroup
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from harness import section
import scenes
from sims import MODELS, attributes, diff_fields, finite, make_agents, \
    snapshot

RULE = __doc__

MOTION = {'position', 'velocity', 'orientation', 'angular_velocity',
          'position_ls', 'position_rs', 'force_prev', 'torque_prev'}
FORCES = {'force', 'torque'}
STEER = {'target_direction', 'target', 'index_leader', 'is_follower',
         'familiar_exit'}
# attributes that a part of the logic may change, entries of the shared data
WRITES = [
    (L.Reset, FORCES, set()),
    (L.Integrator, MOTION, {'dt', 'time_tot'}),
    (L.Fluctuation, FORCES, set()),
    (L.Adjusting, FORCES, set()),
    (L.AgentAgentInteractions, FORCES, set()),
    (L.AgentObstacleInteractions, FORCES, set()),
    (L.Navigation, {'target_direction'}, set()),
    (L.LeaderFollower, STEER, set()),
    (L.LeaderFollowerWithHerding, STEER, set()),
    (L.ExitDetection, {'target', 'is_follower'}, set()),
    (L.Orientation, {'target_orientation'}, set()),
    (L.InsideDomain, {'active'}, {'inactive'}),
    (L.TargetReached, {'target_reached'}, None),
    (L.SaveSimulationData, set(), set()),
]
# only for agents that follow
FOLLOW = (L.LeaderFollower, L.LeaderFollowerWithHerding, L.ExitDetection)


def plain(data):
    return {k: repr(v) for k, v in data.items()}


def shapes(field):
    return [id(field.domain), id(field.obstacles)] + \
        [id(g) for g in field.targets] + [id(g) for g in field.spawns]


def posture(c, a):
    """Orientations in one turn; shoulders attached to their torso."""
    if 'position_ls' not in a.dtype.names:
        return
    phi = a['orientation']
    c.check(np.all(np.abs(phi) <= np.pi + 1e-9), 'watch:orientation', phi)
    t = np.stack([-np.sin(phi), np.cos(phi)], 1) * a['r_ts'][:, None]
    scale = 1e-9 * (1 + np.abs(a['position']).max() if len(a) else 1)
    for name, want in (('position_ls', a['position'] + t),
                       ('position_rs', a['position'] - t)):
        c.check(np.all(np.abs(a[name] - want) <= scale), 'watch:shoulders',
                name, a[name], want)


def watch(c, sim):
    """Wrap the updates of all nodes of a simulation."""
    log = []
    nodes = [sim.logic.root] + list(sim.logic.root.descendants)

    def wrap(node):
        for cls, fields, data in WRITES:
            if isinstance(node, cls):
                break
        else:
            return
        update = node.update
        name = cls.__name__

        def wrapped():
            array = sim.agents.array
            before, shared = snapshot(array), plain(sim.data)
            geometry = shapes(sim.field)
            update()
            after = sim.agents.array
            c.check(after.shape == before.shape and after.dtype ==
                    before.dtype, 'watch:array', name)
            changed = set(diff_fields(before, after))
            c.check(changed <= fields, 'watch:' + name, 'also changed',
                    changed - fields)
            if data is not None:
                now = plain(sim.data)
                keys = {k for k in set(now) | set(shared)
                        if now.get(k) != shared.get(k)}
                c.check(keys <= data, 'watch:data', name, keys - data)
            c.check(shapes(sim.field) == geometry, 'watch:field', name)
            c.check(finite(after), 'watch:finite', name,
                    [n for n in after.dtype.names
                     if after[n].dtype.kind == 'f' and
                     not np.isfinite(after[n]).all()])
            if cls is L.Reset:
                c.check(not np.any(after['force']) and not (
                    'torque' in changed and np.any(after['torque'])),
                    'watch:reset')
            if cls is L.Integrator:
                posture(c, after)
            if cls in FOLLOW:
                still = ~before['is_follower']
                c.check(not diff_fields(before[still], after[still]),
                        'watch:follow', name)
            log.append((name, frozenset(changed)))
            c.count('updates ' + name)
            c.state('changed', name, tuple(sorted(changed)))
        node.update = wrapped

    for node in nodes:
        wrap(node)
    return log


def crowd(c, model, field, n, positions):
    """Agents at given free places, with all kinds of targets."""
    r = c.rng
    agents = Agents(agent_type=MODELS[model])
    m = len(field.targets)
    follows = r.random() < .5

    def attrs(k):
        d = dict(target=r.choice(list(range(m)) * 3 + [-1, m + 2]))
        if follows and r.random() < .5:
            d.update(target=-1, is_follower=True, familiar_exit=r.randrange(
                m) if m and r.random() < .5 else -1)
        elif r.random() < .4:
            d.update(is_leader=True)
        return attributes(c, model, **d)
    all_ = [attrs(k) for k in range(n)]
    it = iter(positions)
    group = AgentGroup(agent_type=MODELS[model], size=n, attributes=all_)
    agents.add_non_overlapping_group(group, position_gen=lambda: next(it))
    return agents


def room(c):
    """Field with a room, and free places for agents."""
    r = c.rng
    w, h = r.uniform(6, 12), r.uniform(6, 12)
    x, y = r.choice([(0.0, 0.0), (-w / 2, -h / 2),
                     (r.uniform(-20, 20), r.uniform(-20, 20))])
    ring = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    kw = {'domain': Polygon(ring)}
    obstacles, targets = [], []
    door = y + h * r.uniform(.3, .6)
    if r.random() < .8:      # right wall with a door
        obstacles += [('line', [(x + w - 1, y), (x + w - 1, door)]),
                      ('line', [(x + w - 1, door + 1.4), (x + w - 1, y + h)])]
    for _ in range(r.randint(0, 2)):
        a, b = x + w * r.uniform(.2, .5), y + h * r.uniform(.2, .7)
        s = r.uniform(.3, 1)
        obstacles.append(r.choice([
            ('line', [(a, b), (a + s, b - s)]),
            ('poly', [(a, b), (a + s, b), (a + s, b + s), (a, b + s)], []),
            ('poly', [(a, b), (a + s, b), (a, b + s)], [])]))
    lines = r.random() < .6
    for k in range(r.randint(1, 2)):
        s = x + w if k == 0 else x
        if lines:
            targets.append(LineString([(s, door), (s, door + 1.4)]))
        else:
            t = s - .6 if k == 0 else s + .6
            targets.append(Polygon([(s, door), (t, door), (t, door + 1.4),
                                    (s, door + 1.4)]))
    if obstacles and r.random() < .9:
        kw['obstacles'] = scenes.to_shapely(obstacles)
    else:
        obstacles = []
    free = []
    for i in range(14):
        for j in range(14):
            p = (x + .5 + i * .85 + r.uniform(-.05, .05),
                 y + .5 + j * .85 + r.uniform(-.05, .05))
            if p[0] < x + w - 1.5 and p[1] < y + h - .4 and \
                    all(scenes.clearance([('line', [p, p])], [o]) > .45
                        for o in obstacles):
                free.append(p)
    if r.random() < .3:      # some are outside of the domain
        free[r.randrange(len(free)):0] = [(x + w + 1, y), (x - 2, y - 2)]
    return Field(targets=targets, **kw), free


def tree(c, sim, model, noise):
    """Random arrangement of the nodes that respects their order."""
    r = c.rng
    steer = []
    kw = {'step': r.choice([.25, .5]), 'radius': r.choice([.5, 0.3]),
          'strength': r.choice([.3, .6])}
    if r.random() < .3 and len(sim.field.targets) > 1:
        steer.append(L.ExitDetection(sim, detection_range=r.uniform(1, 20)))
    if r.random() < .5:
        steer.append(r.choice([L.LeaderFollower, L.LeaderFollowerWithHerding])(
            sim))
    if r.random() < .85:
        steer.append(L.Navigation(sim, **kw))
    adjust = L.Adjusting(sim)
    nodes = steer + [L.Orientation(sim)]
    if r.random() < .5:      # a chain, lowest first
        top = adjust
        for n in reversed(nodes):
            top << n
            top = n
    else:
        adjust << nodes
    forces = [adjust]
    if r.random() < .9:
        forces.append(L.AgentAgentInteractions(sim))
    if r.random() < .9:
        forces.append(L.AgentObstacleInteractions(sim))
    if noise:
        forces.append(L.Fluctuation(sim))
    r.shuffle(forces)
    dt = r.choice([{}, {'dt_min': .001, 'dt_max': .05}])
    integrator = L.Integrator(sim, **dt)
    integrator << forces
    top = integrator
    if r.random() < .6:
        top = L.InsideDomain(sim) << top
    if r.random() < .4:
        top = L.TargetReached(sim) << top
    # evaluated after integrating: the next iteration begins with no force
    return L.Reset(sim) << top


def describe(sim):
    root = sim.logic.root
    return [type(n).__name__ for n in [root] + list(root.descendants)]


def build(c, model=None, noise=None, size=(2, 14)):
    r = c.rng
    model = model or r.choice(['circular', 'three_circle'])
    field, free = room(c)
    r.shuffle(free)
    n = min(r.randint(*size), len(free))
    sim = MultiAgentSimulation(field=field, agents=crowd(c, model, field, n,
                                                         free))
    noise = r.random() < .5 if noise is None else noise
    sim.logic = tree(c, sim, model, noise)
    c.note(model, n, describe(sim), 'obstacles', field.obstacles is not None)
    return sim, model


def run(c, sim, n, mech):
    for k in range(n):
        c.call(mech, sim.update)


@section('nodes', quick=40, thorough=1500, weight=4.0)
def nodes(c):
    """Each part of the logic changes only what it is responsible for."""
    sim, model = build(c)
    array = sim.agents.array
    fixed = snapshot(array)
    log = watch(c, sim)
    n = c.rng.randint(4, 12)
    run(c, sim, n, 'nodes')
    c.equal(sim.data['iterations'], n, 'nodes:iterations')
    never = set(diff_fields(fixed, sim.agents.array)) - MOTION - FORCES - \
        STEER - {'target_orientation', 'active', 'target_reached'}
    c.check(not never, 'nodes:fixed', never)
    moved = np.hypot(*(sim.agents.array['position'] -
                       fixed['position']).T)
    c.check(np.all(moved <= 12 * n * .05 + 1e-9), 'nodes:jump', moved)
    c.state('tree', tuple(describe(sim)))
    kinds = {name for name, changed in log if changed}
    if len(kinds) > 3 and np.any(moved > 0):
        c.nontrivial(model, len(array), tuple(sorted(kinds)), n,
                     float(moved.sum()))


def twice(c, **kw):
    """The same simulation, described and built two times."""
    at, seed = c.rng.getstate(), c.rng.randrange(2 ** 32)
    sims = []
    for _ in range(2):
        c.rng.setstate(at)
        random.seed(seed)
        np.random.seed(seed)
        sims.append(build(c, **kw))
    (a, model), (b, _) = sims
    c.check(describe(a) == describe(b), 'twice:tree')
    x, y = a.agents.array, b.agents.array
    c.check(x.dtype == y.dtype and len(x) == len(y) and not diff_fields(x, y),
            'twice:agents', x.dtype == y.dtype and diff_fields(x, y))
    return a, b, model


@section('state', quick=24, thorough=800, weight=4.0)
def state(c):
    """What follows depends only on the current state: a simulation continues
    like another one that is given the same agents."""
    r = c.rng
    a, b, model = twice(c)
    n, m = r.randint(1, 5), r.randint(1, 4)
    for k in range(n):
        c.call('state', a.update)
        x = a.agents.array
        c.check(not np.any(x['force']), 'state:force')
        if model == 'three_circle':
            c.check(not np.any(x['torque']), 'state:torque')
    b.agents.array[:] = a.agents.array
    seed = r.randrange(2 ** 32)
    for sim in (a, b):
        np.random.seed(seed)
        random.seed(seed)
        run(c, sim, m, 'state')
    x, y = a.agents.array, b.agents.array
    c.check(not diff_fields(x, y), 'state:history', diff_fields(x, y))
    c.equal((a.data['iterations'], b.data['iterations']), (n + m, m),
            'state:iterations')
    c.equal(a.data['dt'], b.data['dt'], 'state:dt')
    if 'inactive' in a.data:
        c.equal(int(a.data['inactive']), int(b.data['inactive']),
                'state:inactive')
    c.count('iterations', n + 2 * m)
    c.nontrivial(model, len(x), n, m, tuple(describe(a)), float(x['position']
                                                              .sum()))


@section('reset', quick=12, thorough=300, weight=2.0)
def reset(c):
    """Forces of every agent are dropped, in crowds of any size."""
    r = c.rng
    model = r.choice(sorted(MODELS))
    sim = MultiAgentSimulation()
    sim.agents = make_agents(c, model, r.choice([1, 2, 65, 300, 1100]))
    array = sim.agents.array
    sim.field = Field(domain=box(-50, -50, 50, 50))
    logic = c.call('construct', L.Reset, sim)
    fields = [f for f in ('force', 'torque') if f in array.dtype.names]
    for _ in range(2):
        for f in fields:
            array[f] = np.random.RandomState(r.randrange(9999)).uniform(
                -9, 9, array[f].shape)
        before = snapshot(array)
        c.call('Reset.update', logic.update)
        after = sim.agents.array
        for f in fields:
            c.check(not np.any(after[f]), 'watch:reset', f, len(array))
        c.check(set(diff_fields(before, after)) <= set(fields), 'watch:Reset')
    c.state('reset', model, len(array))
    c.nontrivial(model, len(array))
    c.sample((model, len(array)))


@section('repeat', quick=24, thorough=800, weight=4.0)
def repeat(c):
    r = c.rng
    a, b, model = twice(c, noise=r.random() < .8)
    n, seed = r.randint(2, 6), r.randrange(2 ** 32)
    first = snapshot(a.agents.array)
    traces = []
    for sim in (a, b):
        np.random.seed(seed)
        random.seed(seed)
        trace = []
        for k in range(n):
            c.call('repeat', sim.update)
            trace.append((sim.agents.array.tobytes(), plain(sim.data)))
        traces.append(trace)
    for k, (x, y) in enumerate(zip(*traces)):
        c.check(x[0] == y[0], 'repeat:agents', 'iteration', k)
        c.equal(x[1], y[1], 'repeat:data')
    c.count('iterations', 2 * n)
    if diff_fields(first, a.agents.array):
        c.nontrivial(model, len(first), n, seed)


EXAMPLES = [k for m in (simulations, collective_motion)
            for _, k in sorted(inspect.getmembers(m, inspect.isclass))
            if issubclass(k, MultiAgentSimulation) and
            k.__module__ == m.__name__]


def example(c, cls=None):
    r = c.rng
    cls = cls or r.choice(EXAMPLES)
    own = cls.class_traits()
    kw = {}
    for name, trait in sorted(own.items()):
        if name.startswith('size'):
            lo = trait.min or 0
            hi = trait.max if trait.max is not None else 9
            kw[name] = r.randint(lo, max(lo, min(hi, 9)))
        elif name == 'agent_type':
            kw[name] = r.choice(trait.values)
    if sum(v for k, v in kw.items() if k.startswith('size')) == 0 and \
            'size_herding' in kw:
        kw['size_herding'] = 4
    if 'exit_width' in own and cls.__name__.startswith('Four'):
        kw['exit_width'] = r.uniform(5, 8)
    return cls, kw


def wide(sim):
    x0, y0, x1, y1 = sim.field.domain.bounds
    return (x1 - x0) * (y1 - y0) > 1500


@section('examples', quick=16, thorough=300, min_nontrivial=4, weight=8.0)
def examples(c):
    cls, kw = example(c, EXAMPLES[c.index % len(EXAMPLES)])
    c.note(cls.__module__, cls.__name__, {k: str(v) for k, v in kw.items()})
    sim = c.call('examples', cls, **kw)
    if sim.logic is None or sim.field is None or sim.agents is None:
        c.skip('not implemented')
    if wide(sim):            # a coarser grid for large fields
        for node in [sim.logic.root] + list(sim.logic.root.descendants):
            if isinstance(node, L.Navigation):
                node.step = .5
    watch(c, sim)
    n = c.rng.randint(2, 5)
    c.check(finite(sim.agents.array), 'examples:finite')
    start = snapshot(sim.agents.array)
    run(c, sim, n, 'examples')
    c.equal(sim.data['iterations'], n, 'examples:iterations')
    c.state('example', cls.__module__, cls.__name__)
    if diff_fields(start, sim.agents.array):
        c.nontrivial(cls.__module__, cls.__name__, n, tuple(sorted(
            (k, str(v)) for k, v in kw.items())))


CODE = """
import vcompat; vcompat.install()
import random, sys, hashlib
import numpy as np
import crowddynamics.examples.{module} as m
from crowddynamics.simulation import agents
seed = {seed}
random.seed(seed)
np.random.seed(seed)
sim = m.{name}({args})
for n in [sim.logic.root] + list(sim.logic.root.descendants):
    if type(n).__name__ == 'Navigation':
        n.step = .5
for k in range(3):
    sim.update()
print(hashlib.sha256(sim.agents.array.tobytes()).hexdigest(),
      len(sim.agents.array), sim.data['time_tot'])
"""


@section('process', quick=4, thorough=24, min_nontrivial=2, weight=10.0)
def process(c):
    """Fresh processes with other hash seeds repeat each other."""
    r = c.rng
    cls = r.choice([simulations.Outdoor, simulations.Hallway,
                    collective_motion.Outdoor])
    cls, kw = example(c, cls)
    args = ', '.join('%s=%s' % (k, v if isinstance(v, int) else 'agents.' +
                                v.__name__) for k, v in sorted(kw.items()))
    code = CODE.format(module=cls.__module__.rsplit('.', 1)[1],
                       name=cls.__name__, args=args,
                       seed=r.randrange(2 ** 32))
    out = []
    for h in ('1', '77'):
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        p = subprocess.run([sys.executable, '-c', code], env=env,
                           cwd=str(c.tmpdir()), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
        c.check(p.returncode == 0, 'process:failed',
                p.stderr.decode('utf-8', 'replace')[-1500:])
        out.append(p.stdout.decode().strip())
    c.equal(out[0], out[1], 'process:differ')
    c.count('processes', 2)
    c.nontrivial(cls.__name__, out[0])
