"""Agents of every model with random valid attributes (also after further
assignments): array records against the attributes, round trips through other
agents, refused assignments with state snapshots, aliasing probes (in-place
changes on one side watched from the other) and model detection. Non-trivial:
an agent with at least five attributes away from their defaults."""
import math

import numpy as np
from traitlets import TraitError

from crowddynamics.simulation.agents import Capsule, Circular, ThreeCircle, \
    is_model
from harness import section
from sims import BODIES, records_equal

RULE = __doc__
SCALAR, VEC = (), (2,)
STATES = {'active': ('b', SCALAR), 'target_reached': ('b', SCALAR),
          'target': ('i', SCALAR), 'is_leader': ('b', SCALAR),
          'is_follower': ('b', SCALAR), 'index_leader': ('i', SCALAR),
          'familiar_exit': ('i', SCALAR)}
BODY = {n: ('f', SCALAR) for n in (
    'radius', 'r_t', 'r_s', 'r_ts', 'mass', 'inertia_rot', 'target_velocity',
    'target_angular_velocity')}
TRANSLATION = {n: ('f', VEC) for n in (
    'position', 'velocity', 'target_direction', 'force', 'force_prev')}
TRANSLATION.update({n: ('f', SCALAR) for n in (
    'tau_adj', 'k_soc', 'tau_0', 'mu', 'kappa', 'damping',
    'std_rand_force')})
ROTATION = {n: ('f', SCALAR) for n in (
    'orientation', 'angular_velocity', 'target_orientation', 'torque',
    'torque_prev', 'tau_rot', 'std_rand_torque')}
SHOULDERS = {n: ('f', VEC) for n in ('position_ls', 'position_rs')}
FIELDS = {
    'circular': (Circular, dict(STATES, **BODY, **TRANSLATION)),
    'three_circle': (ThreeCircle, dict(STATES, **BODY, **TRANSLATION,
                                       **ROTATION, **SHOULDERS)),
    'capsule': (Capsule, dict(STATES, **BODY, **TRANSLATION, **ROTATION)),
}
KINDS = {'b': np.dtype(np.bool_), 'i': np.dtype(np.int64),
         'f': np.dtype(np.float64)}
MINIMUM = set(BODY) | {'tau_adj', 'k_soc', 'tau_0', 'mu', 'kappa', 'damping',
                       'std_rand_force', 'tau_rot', 'std_rand_torque'}
DEFAULTS = dict(tau_adj=.5, k_soc=1.5, tau_0=3.0, mu=1.2e5, kappa=4e4,
                damping=500.0, std_rand_force=.1, tau_rot=.2,
                std_rand_torque=.1, target=-1, index_leader=-1,
                familiar_exit=-1, active=True, target_reached=False,
                is_leader=False, is_follower=False)


def number(r):
    return r.choice([0.0, 1.0, r.uniform(0, 1), r.uniform(0, 1e6),
                     10 ** r.uniform(-300, 300), 5e-324, 1.5, 3])


def valid(r, name, kind, shape):
    if kind == 'b':
        return r.random() < .5
    if kind == 'i':
        lo = -1 if name in ('target', 'familiar_exit') else -2 ** 40
        return r.choice([-1, 0, 1, 7, r.randint(lo, 2 ** 40), 2 ** 62])
    if shape == VEC:
        if name == 'target_direction':
            a = r.uniform(-math.pi, math.pi)
            v = r.choice([(0.0, 0.0), (1.0, 0.0), (0.0, -1.0),
                          (math.cos(a), math.sin(a))])
        else:
            v = tuple(r.choice([1, -1]) * number(r) for _ in range(2))
        return r.choice([v, list(v), np.array(v)])
    if name == 'orientation':
        return r.choice([math.pi, -math.pi, 0.0,
                         r.uniform(-math.pi, math.pi)])
    v = number(r)
    if name not in MINIMUM:
        v = r.choice([v, -v])
    return v


def invalid(r, name, kind, shape):
    """A value to be refused, or None when there is none."""
    options = []
    if kind == 'b':
        options = ['yes', 2.5, None]
    elif kind == 'i':
        options = [1.5, 'a', None]
        if name in ('target', 'familiar_exit'):
            options += [-2, -1000]
    elif shape == VEC:
        options = [(1.0,), (1.0, 0.0, 0.0), [[1.0, 0.0]], np.zeros((2, 2)),
                   5.0, ['a', 'b'], ()]
        if name == 'target_direction':
            options += [(0.5, 0.5), (1.0, 1.0), (0.0, 1.01), (3.0, 4.0)]
    else:
        options = ['a', None, (1.0,), np.zeros(2)]
        if name in MINIMUM:
            options += [-1.0, -5e-324, -1e300]
        if name == 'orientation':
            options += [3.1416, -3.1416, 100.0]
    return r.choice(options)


def values_of(agent, fields):
    return {n: (np.array(getattr(agent, n), dtype=KINDS[k], copy=True)
                .tobytes()) for n, (k, s) in fields.items()}


def check_record(c, agent, rec, fields, mech):
    c.equal(rec.shape, (1,), mech + '-shape')
    c.equal(sorted(rec.dtype.names), sorted(fields), mech + '-fields')
    for n, (k, s) in fields.items():
        c.check(rec[n].dtype == KINDS[k], mech + '-dtype', n, rec[n].dtype)
        c.equal(rec[n].shape, (1,) + s, mech + '-shape', n)
        want = getattr(agent, n)
        c.check(np.array_equal(rec[n][0], np.asarray(want)), mech + '-value',
                n, rec[n][0], want)


def build(c, model, body=None):
    r = c.rng
    cls, fields = FIELDS[model]
    kw = {}
    if body or (body is None and r.random() < .4):
        kw['body_type'] = r.choice(BODIES)
    for n, (k, s) in fields.items():
        if r.random() < .4:
            kw[n] = valid(r, n, k, s)
    items = list(kw.items())
    r.shuffle(items)
    given = dict(items)
    c.note('construct', model, given)
    agent = c.call('construct', cls, **given)
    return agent, fields, given


@section('round-trip', 400, 20000)
def round_trip(c):
    r = c.rng
    model = r.choice(sorted(FIELDS))
    agent, fields, given = build(c, model)
    for n, v in given.items():
        if n != 'body_type' and not (
                'body_type' in given and n in ('r_t', 'r_s', 'r_ts')) and \
                not (n in BODY and v == 0):  # zero measures mean undefined
            c.check(np.array_equal(np.asarray(getattr(agent, n)),
                                   np.asarray(v)), 'attribute', n,
                    getattr(agent, n), v)
    for n, v in DEFAULTS.items():
        if n in fields and n not in given:
            c.check(getattr(agent, n) == v, 'default', n, getattr(agent, n))
    for k in range(r.choice([0, 0, 3])):
        n = r.choice(sorted(fields))
        v = valid(r, n, *fields[n])
        c.note('set', n, v)
        c.call('set', setattr, agent, n, v)
    rec = c.call('array', np.array, agent)
    check_record(c, agent, rec, fields, 'array')
    rec2 = c.call('array', agent.array)
    c.check(records_equal(rec, rec2), 'array-twice')
    d = FIELDS[model][0].dtype()
    c.check(rec.dtype == d, 'dtype', rec.dtype, d)
    # load into another agent of the model
    other, _, given2 = build(c, model)
    if r.random() < .5:
        c.call('array', np.array, other)
    keep = rec.copy()
    c.call('from_array', other.from_array, rec)
    c.check(records_equal(rec, keep), 'from_array-changed-its-argument')
    got = c.call('array', np.array, other)
    for n in fields:
        c.check(np.array_equal(got[n], rec[n]), 'round-trip', n,
                got[n], rec[n])
    check_record(c, other, got, fields, 'loaded')
    # a part of a longer array
    both = np.concatenate((rec2, got, rec2))
    third = c.call('construct', FIELDS[model][0])
    c.call('from_array', third.from_array, both[1:2])
    c.check(np.array_equal(np.array(third), got), 'from-slice')
    n_bad = r.choice([0, 2, 3])
    before = values_of(third, fields)
    c.raises(ValueError, 'length', third.from_array, both[:n_bad])
    c.check(values_of(third, fields) == before, 'refused-array-changed-agent')
    c.count('round_trips')
    if len(given) >= 5:
        c.nontrivial(model, [(k, str(v)) for k, v in sorted(given.items())])
    c.state('dtype', model, str(rec.dtype))
    c.sample((model, given))


@section('refused', 300, 15000)
def refused(c):
    r = c.rng
    model = r.choice(sorted(FIELDS))
    agent, fields, given = build(c, model)
    c.call('array', np.array, agent)
    for k in range(8):
        n = r.choice(sorted(fields))
        v = invalid(r, n, *fields[n])
        c.note('set', n, v)
        before = values_of(agent, fields)
        c.raises(TraitError, 'refused', setattr, agent, n, v)
        after = values_of(agent, fields)
        c.equal(sorted(x for x in fields if before[x] != after[x]), [],
                'refused-value-changed-agent', n, v)
        kw = dict(given)
        kw[n] = v
        c.raises(TraitError, 'refused-at-construction', FIELDS[model][0],
                 **kw)
        c.state('refused', model, n, str(v))
    c.nontrivial(model, c.notes)
    c.sample(c.notes[:4])


@section('no-sharing', 200, 10000)
def no_sharing(c):
    """In-place changes of one agent or array, watched from the others."""
    r = c.rng
    model = r.choice(sorted(FIELDS))
    cls, fields = FIELDS[model]
    agents = []
    for k in range(r.choice([2, 3, 4])):
        a, _, given = build(c, model)
        agents.append(a)
    agents.append(c.call('construct', cls))
    agents.append(c.call('construct', cls))
    arrays = [c.call('array', np.array, a) for a in agents]
    if r.random() < .5:
        i, j = r.sample(range(len(agents)), 2)
        c.call('from_array', agents[i].from_array, arrays[j])
        c.note('agent', i, 'from array', j)
        arrays[i] = c.call('array', np.array, agents[i])
    for step in range(6):
        state = [values_of(a, fields) for a in agents]
        image = [a.copy() for a in arrays]
        k = r.randrange(len(agents))
        n = r.choice([n for n, (_, s) in fields.items() if s == VEC])
        if r.random() < .5:
            v = getattr(agents[k], n)
            if not v.flags.writeable:
                continue
            c.note('agent', k, n, 'in place')
            v[...] = 0.25 * step + 7 if n != 'target_direction' else 0
            who = ('agent', k)
        else:
            c.note('array', k, n, 'in place')
            arrays[k][n][...] = 0.25 * step + 3
            who = ('array', k)
        for i, a in enumerate(agents):
            if who != ('agent', i):
                c.check(values_of(a, fields) == state[i], 'shared-with-agent',
                        who, n, 'changed agent', i)
        for i, a in enumerate(arrays):
            if who != ('array', i):
                c.check(records_equal(a, image[i]), 'shared-with-array', who,
                        n, 'changed array', i)
        c.count('aliasing_probes', len(agents) + len(arrays) - 1)
    c.nontrivial(model, c.notes)
    c.sample(c.notes[-4:])


@section('is_model', 60, 2000)
def model_detection(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    other = {'circular': 'three_circle', 'three_circle': 'circular'}[model]
    a, fields, _ = build(c, model)
    rec = np.array(a)
    n = r.choice([0, 1, 2, 7])
    arr = np.concatenate([rec] * n) if n else rec[:0]
    forms = [rec, arr, arr.copy(), np.zeros(n, dtype=rec.dtype),
             np.zeros(3, dtype=FIELDS[model][0].dtype()), arr[::2], arr[::-1]]
    for x in forms:
        c.check(bool(c.call('is_model', is_model, x, model)) is True,
                'not-detected', model)
        c.check(bool(c.call('is_model', is_model, x, other)) is False,
                'detected-as-other', model)
    drop = r.choice(sorted(fields))
    names = [x for x in rec.dtype.names if x != drop]
    fake = np.zeros(2, dtype=[(x, rec.dtype[x].base, rec.dtype[x].shape)
                              for x in names])
    capsule = np.zeros(2, dtype=Capsule.dtype())
    for x in (fake, capsule, np.zeros(3), np.zeros((2, 2))):
        for m in (model, other):
            c.check(bool(is_model(x, m)) is False, 'detected-foreign', m,
                    drop, x.dtype)
    c.nontrivial(model, n, drop)
    c.sample((model, n, drop))
