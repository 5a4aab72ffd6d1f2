"""Groups described by collections, generators and callables that log each
attribute set they give; the parts of the description come at construction or
one after the other, in every order. The members are compared one by one with
the log. Non-trivial: at least two members with distinct attributes."""
from collections import deque

import numpy as np

from crowddynamics.simulation.agents import AgentGroup, AgentType, Agents, \
    Circular, ThreeCircle
from harness import section
from sims import attributes

RULE = __doc__


class Special(Circular):
    """An agent type of the user."""


class Built(Circular):
    """Logs its construction."""
    log = []

    def __init__(self, *args, **kwargs):
        self.log.append(kwargs)
        super().__init__(*args, **kwargs)


TYPES = [Circular, ThreeCircle, Special, Built]


class Log(object):
    def __init__(self, c, model, limit=None):
        self.c, self.model, self.limit, self.given = c, model, limit, []

    def __call__(self):
        k = len(self.given)
        # familiar_exit numbers the attribute sets
        d = attributes(self.c, self.model, familiar_exit=k,
                       mass=10.0 + k / 7.0,
                       position=np.array([3.0 * k, -2.0 * k]))
        self.given.append(d)
        return d

    def generator(self):
        while self.limit is None or len(self.given) < self.limit:
            yield self()


def judge(c, group, cls, given, size, mech):
    members = group.members
    c.equal(len(members), size, mech + '-count')
    c.check(len(given) >= size, mech + '-attributes-shared',
            'attributes taken', len(given), 'members', size)
    for k, m in enumerate(members):
        c.check(type(m) is cls, mech + '-type', k, type(m))
        want = given[k]
        c.equal(m.familiar_exit, k, mech + '-order', 'member', k)
        c.equal(m.mass, want['mass'], mech + '-attribute', 'member', k)
        for n in ('position', 'velocity', 'target_direction'):
            c.check(np.array_equal(getattr(m, n), want[n]),
                    mech + '-attribute', 'member', k, n)
    c.equal(len({id(m) for m in members}), len(members), mech + '-distinct')
    c.count('members', len(members))


@section('groups', 400, 20000)
def groups(c):
    r = c.rng
    cls = r.choice(TYPES)
    model = 'three_circle' if cls is ThreeCircle else 'circular'
    size = r.choice([1, 2, 3, 10]) if r.random() < .97 else 80
    kind = r.choice(['list', 'tuple', 'deque', 'generator', 'exact-generator',
                     'callable', 'list-without-size', 'other-size'])
    log = Log(c, model, limit=size if kind == 'exact-generator' else None)
    if kind in ('generator', 'exact-generator'):
        source = log.generator()
    elif kind == 'callable':
        source = r.choice([log, lambda: log()])
    else:
        source = {'tuple': tuple, 'deque': deque}.get(kind, list)(
            log() for _ in range(size))
    parts = [('agent_type', cls), ('attributes', source)]
    if kind == 'other-size':
        parts.append(('size', r.choice([1, size + 1, size + 3, max(1, size - 1)])))
    elif kind != 'list-without-size':
        parts.append(('size', size))
    r.shuffle(parts)
    how = r.choice(['construct', 'assign', 'mixed'])
    c.note(cls.__name__, kind, how, [(n, v if n == 'size' else '')
                                     for n, v in parts], size)
    if how == 'construct':
        group = c.call('construct', AgentGroup, **dict(parts))
    elif how == 'assign':
        group = c.call('construct', AgentGroup)
        for n, v in parts:
            c.call('assign', setattr, group, n, v)
    else:
        k = r.randrange(1, len(parts))
        group = c.call('construct', AgentGroup, **dict(parts[:k]))
        for n, v in parts[k:]:
            c.call('assign', setattr, group, n, v)
    judge(c, group, cls, log.given, size, kind)
    c.equal(group.size, size, 'size', kind)
    if kind not in ('list', 'tuple', 'deque', 'list-without-size',
                    'other-size'):
        c.equal(len(log.given), size, 'attributes-taken', kind)
    # reading it again takes nothing more
    first = list(group.members)
    group.size, group.agent_type, group.attributes
    c.check(all(a is b for a, b in zip(first, group.members)),
            'members-rebuilt')
    if r.random() < .5:
        if kind in ('generator', 'exact-generator') and r.random() < .8:
            # a second group continues with the same generator
            if kind == 'generator':
                more = r.choice([1, 4])
                second = c.call('construct', AgentGroup, agent_type=cls,
                                size=more, attributes=source)
                c.equal([m.familiar_exit for m in second.members],
                        list(range(size, size + more)), 'second-group')
        else:
            agents = Agents(agent_type=cls)
            spots = iter([np.array([5.0 * k, 0.0]) for k in range(size)])
            c.call('place', agents.add_non_overlapping_group, group,
                   position_gen=lambda: next(spots))
            c.equal(agents.array['familiar_exit'].tolist(),
                    list(range(size)), 'placed-members')
    if size >= 2:
        c.nontrivial(cls.__name__, kind, how, [n for n, _ in parts], size)
    c.state('description', cls.__name__, kind, how, [n for n, _ in parts])
    c.sample((cls.__name__, kind, how, size))


@section('rebuild', 120, 5000)
def rebuild(c):
    """Replacing a part of a complete description by another value."""
    r = c.rng
    size = r.choice([1, 3, 6])
    log = Log(c, 'circular')
    group = c.call('construct', AgentGroup, agent_type=Circular, size=size,
                   attributes=[log() for _ in range(size)])
    for step in range(r.choice([1, 2, 3])):
        what = r.choice(['attributes', 'agent_type', 'callable'])
        if what == 'agent_type':
            cls = {Circular: Special}.get(group.agent_type, Circular)
            c.call('assign', setattr, group, 'agent_type', cls)
            c.check(all(type(m) is cls for m in group.members), 'new-type')
            c.equal(len(group.members), group.size, 'count')
            if what == 'agent_type' and step == 0:
                judge(c, group, cls, log.given, size, 'new-type')
            # callables are asked again, collections are used again
            break
        log = Log(c, 'circular')
        if what == 'attributes':
            n = r.choice([1, 2, 7])
            c.call('assign', setattr, group, 'attributes',
                   [log() for _ in range(n)])
        else:
            n = group.size
            c.call('assign', setattr, group, 'attributes', lambda: log())
        c.note(what, n)
        judge(c, group, Circular, log.given, n, 'new-' + what)
        c.equal(group.size, n, 'size')
    c.nontrivial(size, c.notes)
    c.sample((size, c.notes))


@section('defaults', 60, 2000)
def defaults(c):
    """Attribute sets that are empty or partial, or one and the same object."""
    r = c.rng
    cls = r.choice([Circular, ThreeCircle])
    size = r.choice([1, 2, 5])
    some = {'target_velocity': r.uniform(.5, 3)}
    one = r.choice([{}, some])
    mixed = [dict(r.choice([{}, some])) for _ in range(size)]
    kind = r.choice(['same', 'mixed', 'callable', 'generator'])
    given = mixed if kind in ('mixed', 'generator') else [one] * size
    source = {'same': [one] * size, 'mixed': mixed, 'callable': lambda: one,
              'generator': (d for d in mixed)}[kind]
    group = c.call('construct', AgentGroup, agent_type=cls, size=size,
                   attributes=source)
    c.equal(len(group.members), size, 'defaults-count', kind, given)
    c.equal(group.size, size, 'defaults-size', kind)
    c.equal(len({id(m) for m in group.members}), size, 'defaults-distinct')
    for k, m in enumerate(group.members):
        like = cls(**given[k])
        c.check(type(m) is cls, 'defaults-type')
        for n in np.array(like).dtype.names:
            c.check(np.array_equal(np.array(m)[n], np.array(like)[n]),
                    'defaults-attribute', kind, k, n)
    # whoever changes one member changes no other one
    group.members[0].position = np.array([7.0, 7.0])
    c.check(all(tuple(m.position) == (0.0, 0.0) for m in group.members[1:]),
            'defaults-shared')
    c.nontrivial(cls.__name__, kind, size, [len(d) for d in given])
    c.sample((cls.__name__, kind, size))
