"""Histories of tree edits (add child, << with one or several nodes, inject
before/after, moving nodes) mirrored on an independent parent/children model;
after every edit the whole tree is read back through its public links, and
recorder nodes log the evaluation order of simulation updates. Non-trivial: a
history of at least three edits on a tree of at least four nodes."""
from crowddynamics.simulation.base import LogicNodeBase
from crowddynamics.simulation.logic import LogicNode
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from harness import section

RULE = __doc__


class Light(LogicNodeBase):
    log = None

    def update(self):
        self.log.append(self)


class Full(LogicNode):
    log = None

    def update(self):
        self.log.append(self)


class Named(Full):
    pass


class Model(object):
    def __init__(self):
        self.parent, self.children = {}, {}

    def add(self, n):
        self.parent[n], self.children[n] = None, []

    def detach(self, n):
        p = self.parent[n]
        if p is not None:
            self.children[p].remove(n)
        self.parent[n] = None

    def attach(self, n, p):
        self.detach(n)
        self.children[p].append(n)
        self.parent[n] = p

    def root(self, n):
        while self.parent[n] is not None:
            n = self.parent[n]
        return n

    def above(self, n):
        out = []
        while n is not None:
            out.append(n)
            n = self.parent[n]
        return out

    def preorder(self, n):
        out = [n]
        for ch in self.children[n]:
            out.extend(self.preorder(ch))
        return out


def read_back(c, m, nodes, free, history):
    """Compare the public links with the model. ``free``: a node whose place
    among its siblings is not prescribed."""
    for n in nodes:
        p = n.parent
        c.check(p is m.parent[n], 'parent', 'node', n.label, 'has parent',
                getattr(p, 'label', None), 'expected',
                getattr(m.parent[n], 'label', None), history)
        got = list(n.children)
        want = m.children[n]
        if free is not None and free in want and free in got:
            c.equal([x.label for x in got if x is not free],
                    [x.label for x in want if x is not free],
                    'children-order', n.label, history)
            m.children[n] = got
        else:
            c.equal([x.label for x in got], [x.label for x in want],
                    'children', n.label, history)
        c.check(len(set(map(id, got))) == len(got), 'duplicate-child')
        c.check(n.root is m.root(n), 'root', n.label, history)


@section('edits', 600, 60000)
def edits(c):
    r = c.rng
    full = r.random() < .5
    sim = MultiAgentSimulation() if full else None
    log = []
    nodes, m = [], Model()
    dup = r.choice([1, 2, 6, 50])
    history = c.notes

    def new():
        if full:
            cls = r.choice([Full, Named])
            n = cls(sim)
        else:
            n = Light()
        n.log = log
        n.label = len(nodes)
        if r.random() < .85:
            n.name = r.choice(['n%d'] * 9 + ['N%d', 'n%d ', 'n%d0']) % \
                r.randrange(dup)
        nodes.append(n)
        m.add(n)
        return n

    def sub():
        """A fresh node, sometimes with its own children."""
        n = new()
        if r.random() < .25:
            for _ in range(r.choice([1, 2])):
                ch = new()
                c.call('add_children', n.add_children, ch)
                m.attach(ch, n)
        return n

    def incoming(target):
        """Fresh subtree, detached root, or a leaf from elsewhere."""
        if r.random() < .25:
            pool = [x for x in nodes if not m.children[x] and
                    x not in m.above(target) and
                    target not in m.above(x)]
            if pool:
                return r.choice(pool)
        return sub()
    main = new()
    steps = r.choice([1, 3, 6, 12, 25])
    for _ in range(steps):
        op = r.choice(['add', 'add', 'lshift', 'lshift-many', 'before',
                       'after', 'after', 'root-before', 'lookup', 'update'])
        members = m.preorder(m.root(main))
        t = r.choice(members)
        free = None
        if op == 'root-before':
            op, t = 'before', m.root(main)
        if op == 'add':
            n = incoming(t)
            history.append(('add', t.label, n.label))
            ret = c.call('add_children', t.add_children, n)
            c.check(ret is t, 'add_children-return')
            m.attach(n, t)
        elif op == 'lshift':
            n = incoming(t)
            history.append(('<<', t.label, n.label))
            ret = c.call('lshift', lambda: t << n)
            c.check(ret is t, 'lshift-return')
            m.attach(n, t)
        elif op == 'lshift-many':
            ns = [sub() for _ in range(r.choice([0, 1, 2, 4]))]
            history.append(('<<', t.label, [n.label for n in ns]))
            arg = r.choice([tuple, list, iter])(ns)
            ret = c.call('lshift', lambda: t << arg)
            c.check(ret is t, 'lshift-return')
            for n in ns:
                m.attach(n, t)
        elif op == 'before':
            n = incoming(t)
            history.append(('before', t.label, n.label))
            p = m.parent[t]
            c.call('inject_before', t.inject_before, n)
            m.attach(t, n)
            if p is not None:
                m.attach(n, p)
            else:
                m.detach(n)
            free = n
            # the order inside n (own children, then t) is not prescribed
            got = list(n.children)
            if sorted(x.label for x in got) == sorted(
                    x.label for x in m.children[n]) and \
                    [x for x in got if x is not t] == \
                    [x for x in m.children[n] if x is not t]:
                m.children[n] = got
        elif op == 'after':
            n = incoming(t)
            history.append(('after', t.label, n.label))
            old = [x for x in m.children[t] if x is not n]
            own = list(m.children[n])
            c.call('inject_after', t.inject_after, n)
            for ch in old:
                m.attach(ch, n)
            m.attach(n, t)
            got = list(n.children)
            if sorted(x.label for x in got) == sorted(
                    x.label for x in own + old) and \
                    [x for x in got if x in own] == own and \
                    [x for x in got if x in old] == old:
                m.children[n] = got
        elif op == 'lookup':
            lookup(c, m, t, nodes, dup)
        elif op == 'update' and full:
            update(c, m, sim, t, log, nodes)
        read_back(c, m, nodes, free, history)
        c.count('edits')
    lookup(c, m, r.choice(m.preorder(m.root(main))), nodes, dup)
    if full:
        update(c, m, sim, main, log, nodes)
    size = len(m.preorder(m.root(main)))
    c.state('tree-shapes', [(getattr(m.parent[n], 'label', None))
                            for n in nodes])
    if steps >= 3 and size >= 4:
        c.nontrivial(history)
    c.sample(history)


def lookup(c, m, start, nodes, dup):
    order = m.preorder(m.root(start))
    names = [n.name for n in order]
    for name in sorted(set(n.name for n in nodes) |
                       {'absent', '', 'n0', 'n', 'N1', 'n0 ', '0'}):
        for via in c.rng.sample(order, min(3, len(order))):
            if name in names:
                got = c.call('getitem', lambda: via[name])
                want = order[names.index(name)]
                c.check(got is want, 'lookup', name, 'from', via.label, 'got',
                        getattr(got, 'label', got), 'expected', want.label)
            else:
                c.raises(KeyError, 'lookup-absent', lambda: via[name])
    c.count('lookups')


def update(c, m, sim, node, log, nodes):
    sim.logic = node
    before = sim.data['iterations']
    for k in range(c.rng.choice([1, 2])):
        del log[:]
        c.call('update', sim.update)
        order = m.preorder(m.root(node))
        c.equal(sorted(n.label for n in log), sorted(n.label for n in order),
                'evaluated-nodes')
        pos = {n: i for i, n in enumerate(log)}
        for n in order:
            for ch in m.children[n]:
                c.check(pos[ch] < pos[n], 'child-after-parent', ch.label,
                        n.label)
        c.equal(sim.data['iterations'], before + k + 1, 'iterations')
        c.count('node_evaluations', len(log))


@section('names', 40, 400)
def names(c):
    """A node not given a name carries the name of its class."""
    r = c.rng
    cls = type(r.choice(['Reset', 'Foo', 'X_1']), (Light,), {})
    n = cls()
    c.equal(n.name, cls.__name__, 'default-name')
    n2 = cls(name='other')
    c.equal(n2.name, 'other', 'given-name')
    n << n2
    c.check(n['other'] is n2 and n2[cls.__name__] is n, 'lookup')
    c.nontrivial(cls.__name__, c.index)
