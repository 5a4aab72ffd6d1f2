"""Generated exit conditions and logic trees with an event log of condition
evaluations and updates, plus full simulations with the real integrator whose
data is recorded after every update. Non-trivial: at least two updates, or an
exit condition that raises, is true at once, or is stateful."""
import datetime
import functools
import os
import time
from collections import OrderedDict

import numpy as np
from crowddynamics.simulation.agents import Agents, AgentGroup, Circular, \
    ThreeCircle
from crowddynamics.simulation.base import SimulationBase
from crowddynamics.simulation.logic import LogicNode, Integrator, Reset, \
    Adjusting
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from harness import section

RULE = __doc__


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


class Plain(SimulationBase):
    log = None
    fail_at = None

    def update(self):
        n = sum(1 for e in self.log if e[0] == 'update')
        if self.fail_at is not None and n == self.fail_at[0]:
            raise self.fail_at[1]('in update')
        self.log.append(('update',))


class Node(LogicNode):
    log = None
    fail_at = None
    count = 0

    def update(self):
        if self.fail_at is not None and self.count == self.fail_at[0]:
            raise self.fail_at[1]('in node')
        self.count += 1
        self.log.append(('update',))


TRUE = [True, 1, np.bool_(True), 'yes', [0], 2.5]
FALSE = [False, 0, np.bool_(False), None, '', []]


def condition(c, log, n, kind, exc):
    """A condition false n times, then true (or raising)."""
    r = c.rng
    simple = r.random() < .6
    state = {'k': 0}

    def cond(simulation):
        log.append(('cond', simulation))
        k = state['k']
        state['k'] += 1
        if k >= n:
            if exc is not None:
                raise exc('in condition')
            return True if simple else r.choice(TRUE)
        return False if simple else r.choice(FALSE)
    if kind == 'function':
        return cond
    if kind == 'lambda':
        return lambda s: cond(s)
    if kind == 'partial':
        return functools.partial(lambda a, s: cond(s), 3)
    if kind == 'method':
        class Obj(object):
            def m(self, s):
                return cond(s)
        return Obj().m

    class CallObj(object):
        def __call__(self, s):
            return cond(s)
    return CallObj()


@section('loop', 600, 60000)
def loop(c):
    r = c.rng
    log = []
    kind = r.choice(['function', 'lambda', 'partial', 'method', 'object'])
    n = r.choice([0, 0, 1, 2, 3, 7, 30, 200]) if r.random() < .99 else 3000
    exc = r.choice([None, None, None, Boom, Hard])
    full = r.random() < .6
    if full:
        sim = MultiAgentSimulation()
        node = Node(sim)
        node.log = log
        sim.logic = node
        owner = node
    else:
        sim = owner = Plain()
        owner.log = log
    never = r.random() < .1
    ufail = None
    if never:
        ufail = (r.choice([0, 1, 5, 40]), r.choice([Boom, Hard]))
        sim.exit_condition = None
    else:
        if r.random() < .2:
            ufail = (r.choice([0, 1, 3, 20]), r.choice([Boom, Hard]))
        sim.exit_condition = condition(c, log, n, kind, exc)
    owner.fail_at = ufail
    c.note('condition', kind, 'false', n, 'times then', exc, 'update fails',
           ufail, 'full', full)
    want_exc, updates = exc, n
    if never:
        updates, want_exc = ufail
    elif ufail is not None and ufail[0] < n:
        updates, want_exc = ufail
    try:
        ret = sim.run()
        raised = None
    except (Boom, Hard) as e:
        raised = type(e)
    except Exception as e:
        c.fail('run:raised', repr(e))
    c.check(raised is want_exc, 'run-outcome', 'raised', raised, 'expected',
            want_exc)
    c.equal(sum(1 for e in log if e[0] == 'update'), updates, 'updates')
    if full:
        c.equal(sim.data['iterations'], updates, 'iterations')
    if not never:
        failed_update = ufail is not None and ufail[0] < n
        seq = [e[0] for e in log]
        want = ['cond', 'update'] * updates + ['cond']
        c.equal(seq, want, 'event-order')
        c.check(all(e[1] is sim for e in log if e[0] == 'cond'),
                'condition-argument')
        del failed_update
    # running again: the condition stays true, nothing more may happen
    if not never and exc is None and raised is None:
        before = len(log)
        c.call('run-again', sim.run)
        c.equal([e[0] for e in log[before:]], ['cond'], 'update-after-exit')
    c.count('updates', updates)
    c.state('outcomes', kind, min(n, 3), exc, ufail and ufail[1], full)
    if updates >= 2 or exc is not None or n == 0:
        c.nontrivial(kind, n, exc, ufail, full)
    c.sample(dict(kind=kind, n=n, exc=exc, update_fails=ufail, full=full))


def make_agents(c, sim):
    r = c.rng
    cls = r.choice([Circular, ThreeCircle])
    size = r.choice([1, 1, 2, 5])
    agents = Agents(agent_type=cls)
    speed = r.choice([0.0, 0.5, 1.0, 4.0])

    def attributes():
        phi = r.uniform(-3, 3)
        d = dict(body_type='adult',
                 velocity=speed * r.random() * np.array([np.cos(phi),
                                                         np.sin(phi)]),
                 target_direction=np.array([np.cos(phi), np.sin(phi)]))
        if cls is ThreeCircle:
            d.update(orientation=phi, target_orientation=phi)
        if r.random() < .1:
            d['target_velocity'] = 0.0
        return d
    group = AgentGroup(agent_type=cls, size=size, attributes=attributes)
    k = [0]

    def pos():
        k[0] += 1
        return np.array([2.0 * k[0], r.uniform(-1, 1)])
    agents.add_non_overlapping_group(group, position_gen=pos)
    return agents


@section('time', 100, 4000)
def time_(c):
    r = c.rng
    dt_max = r.choice([0.01, 0.05, 0.2, 1.0])
    dt_min = r.choice([0.0, dt_max, dt_max / 2, dt_max / 10, 0.001])
    n = r.choice([1, 2, 5, 20])

    class Sim(MultiAgentSimulation):
        pass
    sim = Sim()
    sim.agents = c.call('agents', make_agents, c, sim)
    integrator = Integrator(sim, dt_min=dt_min, dt_max=dt_max)
    steps = []

    class Watch(LogicNode):
        def update(self):
            steps.append(self.simulation.data['dt'])
    tree = Watch(sim) << (Reset(sim) << (integrator << Adjusting(sim)))
    sim.logic = r.choice([tree, integrator])
    sim.exit_condition = lambda s: s.data['iterations'] >= n
    before = sim.agents.array.copy()
    seen = []
    orig_cond = sim.exit_condition

    def cond(s):
        seen.append(dict(s.data))
        return orig_cond(s)
    sim.exit_condition = cond
    c.call('run', sim.run)
    c.equal(len(seen), n + 1, 'condition-evaluations')
    c.equal(seen[0]['iterations'], 0, 'initial-iterations')
    c.equal(seen[0]['time_tot'], 0.0, 'initial-time')
    total = 0.0
    for k, d in enumerate(seen[1:]):
        c.equal(d['iterations'], k + 1, 'iterations')
        dt = d['dt']
        c.check(dt_min * (1 - 1e-12) <= dt <= dt_max * (1 + 1e-12),
                'step-out-of-bounds', dt, dt_min, dt_max)
        c.check(abs(dt - steps[k]) <= 0, 'step-recorded', dt, steps[k])
        total += dt
        c.close(d['time_tot'], total, 'total-time', rtol=1e-10)
        c.state('step-class', dt == dt_min, dt == dt_max)
    if n >= 2:
        c.nontrivial(dt_min, dt_max, n, before['velocity'].tolist())
    c.count('steps', n)
    c.sample(dict(dt_min=dt_min, dt_max=dt_max, n=n, steps=steps[:5]))


@section('isolation', 200, 10000)
def isolation(c):
    """Several simulations alive at once, updated in a random interleaving."""
    r = c.rng
    n = r.choice([2, 3, 5])
    sims, logs, model, meta = [], [], [], []
    os.environ['TZ'] = r.choice(['UTC', 'Asia/Tokyo', 'XST+7', 'YST-5:30'])
    time.tzset()
    t0 = datetime.datetime.now(datetime.timezone.utc)
    for k in range(n):
        cls = r.choice([MultiAgentSimulation,
                        type('Sim%d' % k, (MultiAgentSimulation,), {})])
        kw = {}
        if r.random() < .4:
            kw['name'] = 'named %d é' % k
        if r.random() < .3:
            kw['timestamp'] = datetime.datetime(
                2017, 1, 1, 3, 0, 0, k * r.choice([1, 1000, 500000]) % 10 ** 6,
                tzinfo=r.choice([datetime.timezone.utc, datetime.timezone(
                    datetime.timedelta(hours=r.randint(-9, 9)))]))
        if r.random() < .3:
            kw['metadata'] = OrderedDict(extra=k)
        elif sims and r.random() < .4:
            # described by the metadata of another simulation
            kw['metadata'] = OrderedDict(r.choice(sims).metadata)
        if r.random() < .3:
            kw['data'] = OrderedDict(mine=k)
        extra_data = dict(kw.get('data') or {})
        extra_meta = dict(kw.get('metadata') or {})
        s = c.call('construct', cls, **kw)
        log = []
        node = Node(s)
        node.log = log
        s.logic = node
        sims.append(s)
        logs.append(log)
        model.append(dict(iterations=0, time_tot=0.0, dt=0.0,
                          **extra_data))
        ts = s.timestamp
        if 'timestamp' in kw:
            c.equal(ts, kw['timestamp'], 'timestamp')
        else:
            now = datetime.datetime.now(datetime.timezone.utc)
            c.check(t0 <= ts <= now, 'timestamp-not-construction', ts, t0, now)
        name = kw.get('name', cls.__name__)
        c.equal(s.name, name, 'name')
        meta.append(dict(extra_meta, name=name, timestamp=str(ts)))
        c.check(name in s.name_with_timestamp and
                ' ' not in s.name_with_timestamp.replace(name, ''),
                'name_with_timestamp', s.name_with_timestamp)
        for o in sims[:-1]:
            c.check(o.name == name and o.timestamp == ts or
                    o.name_with_timestamp != s.name_with_timestamp,
                    'name_with_timestamp:ambiguous', s.name_with_timestamp)
    for k in range(r.choice([5, 20, 60])):
        i = r.randrange(n)
        op = r.choice(['update', 'update', 'data', 'meta', 'run'])
        if op == 'update':
            c.call('update', sims[i].update)
            model[i]['iterations'] += 1
        elif op == 'data':
            key = 'k%d' % r.randrange(3)
            sims[i].data[key] = model[i][key] = r.random()
        elif op == 'meta':
            key = 'm%d' % r.randrange(3)
            sims[i].metadata[key] = meta[i][key] = r.random()
        else:
            stop = model[i]['iterations'] + r.randrange(4)
            sims[i].exit_condition = \
                lambda s, stop=stop: s.data['iterations'] >= stop
            c.call('run', sims[i].run)
            model[i]['iterations'] = stop
        for j in range(n):
            c.equal(dict(sims[j].data), model[j], 'data', 'simulation', j,
                    'after', op, 'on', i)
            c.equal(dict(sims[j].metadata), meta[j], 'metadata', j, op, i)
            c.equal(len(logs[j]), model[j]['iterations'], 'updates', j)
            c.equal(str(sims[j].timestamp), meta[j]['timestamp'], 'timestamp')
    c.nontrivial(n, [m['iterations'] for m in model])
    c.sample(model)
