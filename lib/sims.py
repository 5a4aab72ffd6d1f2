"""Random agents, fields and simulations assembled from public parts."""
import math

import numpy as np
from shapely.geometry import LineString, Polygon, box

from crowddynamics.simulation.agents import Agents, AgentGroup, Circular, \
    ThreeCircle

MODELS = {'circular': Circular, 'three_circle': ThreeCircle}
BODIES = ['adult', 'male', 'female', 'child', 'eldery']


def unit(phi):
    return np.array([math.cos(phi), math.sin(phi)])


def attributes(c, model, **extra):
    """Random valid attributes of an agent."""
    r = c.rng
    phi = r.uniform(-math.pi, math.pi)
    speed = r.choice([0.0, 1.0, r.uniform(0, 3)])
    d = dict(body_type=r.choice(BODIES),
             velocity=speed * unit(r.uniform(-math.pi, math.pi)),
             target_direction=unit(phi))
    if model == 'three_circle':
        d.update(orientation=phi, target_orientation=r.uniform(-3, 3),
                 angular_velocity=r.uniform(-1, 1))
    d.update(extra)
    return d


def make_agents(c, model, size, spread=None, positions=None, attrs=None,
                obstacles=None):
    """``Agents`` with one non overlapping group placed on a jittered grid."""
    r = c.rng
    cls = MODELS[model]
    agents = Agents(agent_type=cls)
    group = AgentGroup(agent_type=cls, size=size, attributes=[
        (attrs(k) if attrs else attributes(c, model)) for k in range(size)])
    if positions is None:
        side = int(math.ceil(math.sqrt(size)))
        gap = spread or r.choice([0.9, 1.5, 3.0])
        cells = [(i * gap, j * gap) for i in range(side) for j in range(side)]
        r.shuffle(cells)
        positions = [np.array(p) + np.array([r.uniform(-.05, .05),
                                             r.uniform(-.05, .05)])
                     for p in cells]
    it = iter(positions)
    agents.add_non_overlapping_group(group, position_gen=lambda: next(it))
    return agents


def flags(r, arr):
    """Random states of mind, which the physics do not look at."""
    n = len(arr)
    for g in arr:
        g['active'] = r.random() < .75
        g['target_reached'] = r.random() < .3
        g['target'] = r.randint(-1, 3)
        g['is_leader'] = r.random() < .3
        g['is_follower'] = r.random() < .4
        g['index_leader'] = r.randint(-1, n - 1)
        g['familiar_exit'] = r.randint(-1, 3)


def set_record(rec, **values):
    for k, v in values.items():
        rec[k] = v


def snapshot(a):
    return np.array(a, copy=True)


def records_equal(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and \
        a.tobytes() == b.tobytes()


def diff_fields(a, b):
    """Names of the fields whose bytes differ."""
    return [n for n in a.dtype.names
            if np.ascontiguousarray(a[n]).tobytes() !=
            np.ascontiguousarray(b[n]).tobytes()]


def finite(a):
    return all(np.all(np.isfinite(a[n])) for n in a.dtype.names
               if a[n].dtype.kind == 'f')
