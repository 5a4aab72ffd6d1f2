"""Records of agents filled directly, and the monitor of a force pass."""
import math

import numpy as np

from crowddynamics.simulation.agents import agent_type_circular, \
    agent_type_three_circle
from exact import parts
from sims import diff_fields

DTYPES = {'circular': agent_type_circular,
          'three_circle': agent_type_three_circle}


def place(rec, model):
    """Shoulders of a record (documented offsets)."""
    if model == 'three_circle':
        q = parts(rec, model)
        rec['position_ls'], rec['position_rs'] = q[1][0], q[2][0]


def fill(r, rec, model, at):
    rec['position'] = at
    rec['mass'] = r.choice([1.0, 80.0, r.uniform(20, 120)])
    rec['radius'] = r.uniform(.15, .4)
    rec['tau_0'] = r.choice([3.0, r.uniform(.3, 10)])
    rec['k_soc'] = r.choice([1.5, r.uniform(.1, 5)])
    rec['mu'], rec['kappa'], rec['damping'] = \
        r.uniform(.5, 2) * 1.2e5, r.uniform(.5, 2) * 4e4, r.uniform(0, 800)
    if model == 'three_circle':
        R = float(rec['radius'])
        rec['r_t'] = R * r.uniform(.4, .8)
        rec['r_s'] = R * r.uniform(.2, .5)
        rec['r_ts'] = R * r.uniform(.4, .8)
        rec['orientation'] = r.choice([0.0, math.pi / 2, math.pi,
                                       r.uniform(-math.pi, math.pi)])
        rec['inertia_rot'] = r.uniform(.5, 8)
        place(rec, model)


def compare(c, before, after, F, T, tol, model, mech):
    df = after['force'] - before['force']
    for k in range(len(before)):
        c.check(np.all(np.abs(df[k] - F[k]) <= tol[k] + 1e-12 *
                       np.abs(before[k]['force'])), mech + 'force', model,
                'agent', k, 'of', len(before), 'got', df[k], 'expected', F[k])
    may = {'force'}
    if model == 'three_circle':
        dt = after['torque'] - before['torque']
        for k in range(len(before)):
            c.check(abs(dt[k] - T[k]) <= tol[k] + 1e-12 *
                    abs(before[k]['torque']), mech + 'torque', model, 'agent',
                    k, 'of', len(before), 'got', dt[k], 'expected', T[k])
        may.add('torque')
    c.check(set(diff_fields(before, after)) <= may, mech + 'other-attribute',
            diff_fields(before, after))
