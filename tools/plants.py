"""Planted bugs (development only; the results are in seeded/)."""
PLANTS = []


def plant(**kw):
    PLANTS.append(kw)


plant(
    id='npy-order-after-ten', property='C01',
    edits=[('io.py', "    for index, filepath in sorted(values, key=lambda x: x[0]):\n",
            "    for index, filepath in sorted(values, key=lambda x: x[1]):\n")],
    needs='a recording of more than ten chunks: the tenth file name sorts before the second',
    breaks='chunks are loaded in the order of their file names, not of the recording',
    demo='''import os
import numpy as np
from crowddynamics.io import save_npy, load_npy
d = os.environ['SCRATCH']
s = save_npy(d, 'a')
s.send(None)
for i in range(13):
    s.send(np.array([i]))
    s.send(True)
got = [int(x[0, 0]) for x in load_npy(d, 'a')]
assert got == list(range(13)), got
''')

plant(
    id='csv-buffer-tail', property='C02',
    edits=[('io.py', "                # clear stringIO\n                buffer.truncate(0)\n                buffer.seek(0)\n",
            "                # clear stringIO\n                buffer.seek(0)\n                if len(buffer.getvalue()) > 64:\n                    buffer.truncate(0)\n")],
    needs='a dump that follows a shorter one: the tail of a small buffer is kept and written again when fewer characters follow it',
    breaks='rows of a former dump reach the file a second time',
    demo='''import os, csv
from collections import OrderedDict
from crowddynamics.io import save_csv
d = os.environ['SCRATCH']
s = save_csv(d, 'a')
s.send(None)
rows = [100000, 200000, 3, 4]
for i, v in enumerate(rows):
    s.send(OrderedDict(x=v))
    s.send(i != 0)
with open(os.path.join(d, 'a.csv'), newline='') as fp:
    got = [r[0] for r in csv.reader(fp) if r]
assert got == ['x'] + [str(v) for v in rows], got
''')

plant(
    id='blocks-int-keys', property='C08',
    edits=[('core/block_list.py', "return tuple(elem // cell_size for elem in value)",
            "return tuple(int(elem / cell_size) for elem in value)")],
    needs='coordinates on both sides of zero: the cells next to the axes merge',
    breaks='items of two different cells are returned for one cell, and the cell of radius k reaches further across the axis',
    demo='''from crowddynamics.core.block_list import MutableBlockList
b = MutableBlockList(cell_size=1.0)
b[(-0.5, 0.5)] = 1
b[(0.5, 0.5)] = 2
assert list(b[(0.5, 0.5)]) == [2], b[(0.5, 0.5)]
''')

plant(
    id='nearest-aliases-first', property='C08',
    edits=[('core/block_list.py', """        return sum((self._blocks[key] for key in
                    self._nearest_blocks(index, radius)), self._list())
""", """        blocks = [self._blocks[key] for key in
                  self._nearest_blocks(index, radius)]
        items = blocks[0]
        for block in blocks[1:]:
            items += block
        return items
""")],
    needs='two neighbourhood queries around the same place, or a query followed by a look-up of its lowest corner cell',
    breaks='a query stores the items of the whole neighbourhood in one of its cells, so later results hold items twice and from other cells',
    demo='''from crowddynamics.core.block_list import MutableBlockList
b = MutableBlockList(cell_size=1.0)
b[(0.5, 0.5)] = 1
b[(1.5, 1.5)] = 2
assert sorted(b.nearest((0.5, 0.5))) == [1, 2]
assert sorted(b.nearest((0.5, 0.5))) == [1, 2]
assert list(b[(-0.5, -0.5)]) == []
''')

plant(
    id='tree-getitem-subtree', property='C09',
    edits=[('simulation/base.py', "for node in PreOrderIter(self.root):",
            "for node in PreOrderIter(self if self.parent is None or not\n                                 self.is_leaf else self.root):")],
    needs='a look-up from an inner node (neither root nor leaf) of a name outside its own subtree',
    breaks='looking a name up from an inner node does not find nodes outside that node\'s subtree',
    demo='''from crowddynamics.simulation.base import LogicNodeBase
class N(LogicNodeBase):
    pass
a, b, c, d = (N(name=x) for x in 'abcd')
a << (b << c, d)
assert a['d'] is d and c['d'] is d
assert b['d'] is d
''')

plant(
    id='metadata-shared', property='C10',
    edits=[('simulation/base.py', """        self.metadata['name'] = self.name
        self.metadata['timestamp'] = str(self.timestamp)
""", """        self.metadata.setdefault('name', self.name)
        self.metadata.setdefault('timestamp', str(self.timestamp))
""")],
    needs='a simulation constructed with metadata that already has a name or timestamp, as a description copied from another simulation has',
    breaks='the metadata carries the name and timestamp of another simulation',
    demo='''from collections import OrderedDict
from crowddynamics.simulation.base import SimulationBase
class A(SimulationBase):
    pass
class B(SimulationBase):
    pass
a = A()
b = B(metadata=OrderedDict(a.metadata))
assert b.metadata['name'] == 'B', b.metadata
assert b.metadata['timestamp'] == str(b.timestamp)
''')

PRE = '''import os, sys
import vcompat
vcompat.install()
import numpy as np
'''

AGENTS = PRE + '''from crowddynamics.simulation.agents import Agents, AgentGroup, \\
    Circular, ThreeCircle


def make(cls, rows):
    a = np.concatenate([np.array(cls(**r)) for r in rows])
    assert len(a) == len(rows)
    return a


'''

plant(
    id='saved-active-only', property='C04', stubs=['all'],
    edits=[('simulation/logic.py', "        self.save_agent_npy.send(self.simulation.agents.array)\n",
            "        agents = self.simulation.agents.array\n"
            "        self.save_agent_npy.send(agents[agents['active']])\n")],
    needs='an agent that becomes inactive during a recording of several iterations',
    breaks='agents that have left vanish from the rows saved afterwards, so rows cannot be split into iterations any more',
    demo=AGENTS + '''from shapely.geometry import Polygon
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import SaveSimulationData, Reset
from crowddynamics.io import load_npy_concatenated
s = MultiAgentSimulation()
s.field = Field(domain=Polygon([(0, 0), (9, 0), (9, 9), (0, 9)]))
s.agents = Agents(agent_type=Circular)
s.agents.array = make(Circular, [dict(position=(float(i), 1.0)) for i in range(3)])
node = SaveSimulationData(s, save_condition=lambda _: True,
                          base_directory=os.environ['SCRATCH'],
                          save_directory='a')
s.logic = Reset(s)
for i in range(4):
    s.agents.array['active'][0] = i < 2
    node.update()
got = load_npy_concatenated(os.path.join(os.environ['SCRATCH'], 'a'), 'agents')
assert got.size == 12, got.size
''')

plant(
    id='subclasses-by-class-name', property='C06',
    edits=[('utils.py', "    return OrderedDict([(name, obj) for name, obj in vars(mod).items() if\n                        filter_cls(cls, obj)])",
            "    return OrderedDict([(obj.__name__, obj) for obj in vars(mod).values() if\n                        filter_cls(cls, obj)])")],
    needs='two classes of one module that have the same __name__ (made by a factory), or a class bound to another name',
    breaks='such classes are merged into one, or listed under a name the module does not have',
    demo='''import os
from crowddynamics.utils import import_subclasses
p = os.path.join(os.environ['SCRATCH'], 'm.py')
with open(p, 'w') as fp:
    fp.write("def make(v):\\n    class Made(list):\\n        value = v\\n    return Made\\nSmall = make(1)\\nLarge = make(9)\\n")
got = import_subclasses(p, list)
assert {k: v.value for k, v in got.items()} == {'Small': 1, 'Large': 9}, got
''')

plant(
    id='modules-by-suffix', property='C07', stubs=['all'],
    edits=[('cli.py', "        base, ext = os.path.splitext(path)\n        if ext == '.py':\n",
            "        if path.endswith('py'):\n")],
    needs='a working directory that also holds recorded data (.npy files)',
    breaks='data files next to the simulations are imported as modules, so that no simulation can be listed or run',
    demo=PRE + '''from crowddynamics.cli import import_simulations
d = os.environ['SCRATCH']
with open(os.path.join(d, 'sims.py'), 'w') as fp:
    fp.write("from crowddynamics.simulation.multiagent import MultiAgentSimulation\\n"
             "class Mine(MultiAgentSimulation):\\n    pass\\n")
np.save(os.path.join(d, 'agents_0.npy'), np.arange(3))
assert 'Mine' in import_simulations(d)
''')

plant(
    id='inject-after-flattens', property='C09',
    edits=[('simulation/base.py', "        for child in self.children:\n            child.parent = node\n",
            "        for child in self.descendants:\n            child.parent = node\n")],
    needs='injecting a node above a subtree of depth two or more',
    breaks='all nodes below become children of the injected node, which loses the order they depend on',
    demo='''from crowddynamics.simulation.base import LogicNodeBase as N
a, b, c, d = (N(name=n) for n in 'abcd')
a << (b << c)
a.inject_after(d)
assert d.parent is a and b.parent is d and c.parent is b, c.parent
''')

plant(
    id='count-before-nodes', property='C10', stubs=['all'],
    edits=[('simulation/multiagent.py', "        for node in PostOrderIter(self.logic.root):\n            node.update()\n        self.data['iterations'] += 1\n",
            "        self.data['iterations'] += 1\n        for node in PostOrderIter(self.logic.root):\n            node.update()\n")],
    needs='a node that reads the number of iterations, or an iteration that fails',
    breaks='nodes see the number of the next iteration, and an iteration that fails is counted as done',
    demo=PRE + '''from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import LogicNode


class Node(LogicNode):
    seen = ()

    def update(self):
        self.seen += (self.simulation.data['iterations'],)


s = MultiAgentSimulation()
s.logic = Node(s)
for i in range(3):
    s.update()
assert s.logic.seen == (0, 1, 2), s.logic.seen
''')

plant(
    id='end-marker-on-stop', property='C11', stubs=['all'],
    edits=[('simulation/multiagent.py', "        self.exit.set()\n",
            "        self.exit.set()\n        self.queue.put(self.EndProcess)\n")],
    needs='a process that is stopped (or fails), with a reader that goes on after the first end marker',
    breaks='the end marker is put twice, and before the last items of the simulation',
    demo=PRE + '''from queue import Queue
from crowddynamics.simulation.multiagent import MultiAgentSimulation, \\
    MultiAgentProcess
from crowddynamics.simulation.logic import LogicNode
q = Queue()
s = MultiAgentSimulation()


class Node(LogicNode):
    def update(self):
        self.simulation.data['n'] = self.simulation.data.get('n', 0) + 1
        if self.simulation.data['n'] == 3:
            p.stop()
        q.put(self.simulation.data['n'])


s.logic = Node(s)
p = MultiAgentProcess(s, q)
p.run()
got = []
while not q.empty():
    got.append(q.get())
assert got == [1, 2, 3, MultiAgentProcess.EndProcess], got
''')

plant(
    id='trait-int-width', property='C32', stubs=['all'],
    edits=[('traits.py', "            return name, np.int64\n", "            return name, np.int32\n")],
    needs='integers beyond 32 bits',
    breaks='large values of integer attributes wrap around or are refused in the array',
    demo=PRE + '''from traitlets import Int
from crowddynamics.traits import trait_to_dtype
dt = np.dtype([trait_to_dtype('x', Int())])
a = np.array([(2 ** 40,)], dtype=dt)
assert a['x'][0] == 2 ** 40, a
''')

plant(
    id='ratio-late-shoulder', property='C13', stubs=['all'],
    edits=[('simulation/agents.py', "            elif name == 'ratio_ts':\n                self.r_ts = self.ratio_ts * self.radius\n",
            "            elif name == 'ratio_ts':\n                self.r_ts = self.radius - self.ratio_rs * self.radius\n")],
    needs='a ratio that is set after the radius, and shoulders that do not end exactly at the radius',
    breaks='the distance of the shoulders ignores its ratio when it arrives after the radius',
    demo=AGENTS + '''a = ThreeCircle()
a.radius = 0.3
a.ratio_rs = 0.4
a.ratio_ts = 0.5
assert abs(a.r_ts - 0.15) < 1e-12, a.r_ts
''')

plant(
    id='overlap-left-twice', property='C14', stubs=['all'],
    edits=[('simulation/agents.py', "        h, _, _, _ = distance_three_circles(\n            (agent['position'], agent['position_ls'], agent['position_rs']),\n",
            "        h, _, _, _ = distance_three_circles(\n            (agent['position'], agent['position_ls'], agent['position_ls']),\n")],
    needs='agents that touch only at the right shoulder of the one placed first',
    breaks='agents are placed onto the right shoulder of another one',
    demo=AGENTS + '''a = Agents(agent_type=ThreeCircle)
body = dict(radius=0.3, r_t=0.15, r_s=0.1, r_ts=0.2, mass=80.0)
one = AgentGroup(agent_type=ThreeCircle, attributes=[dict(body, orientation=0.0)])
two = AgentGroup(agent_type=ThreeCircle, attributes=[dict(body, orientation=np.pi / 2)])
a.add_non_overlapping_group(one, lambda: np.array((0.0, 0.0)))
right = a.array[0]['position_rs']
a.add_non_overlapping_group(two, lambda: right + np.array((0.0, -0.2)))
assert len(a.array) == 1, a.array
''')

plant(
    id='group-shared-attributes', property='C15', stubs=['all'],
    edits=[('simulation/agents.py', "                self.members = [self.agent_type(**self.attributes()) for _ in range(self.size)]\n",
            "                attributes = self.attributes()\n                self.members = [self.agent_type(**attributes) for _ in range(self.size)]\n")],
    needs='a function of attributes that returns something else each time (random ones)',
    breaks='all members get the attributes drawn for the first one',
    demo=AGENTS + '''from itertools import count
c = count()
g = AgentGroup(agent_type=Circular, size=4,
               attributes=lambda: dict(target=next(c)))
got = [m.target for m in g.members]
assert got == [0, 1, 2, 3], got
''')

plant(
    id='wrap-pi-boundary', property='C16', stubs=['all'],
    edits=[('core/vector2D.py', "    elif rad_ > np.pi:\n        return rad_ - (2 * np.pi)\n",
            "    elif rad_ >= np.pi:\n        return rad_ - (2 * np.pi)\n")],
    needs='an angle that is exactly an odd positive multiple of pi',
    breaks='pi is wrapped to -pi, against the documentation',
    demo=PRE + '''from crowddynamics.core.vector2D import wrap_to_pi
assert wrap_to_pi(np.pi) == np.pi, wrap_to_pi(np.pi)
''')

plant(
    id='wall-normal-onesided', property='C17', stubs=['all'],
    edits=[('core/distance.py', "        n_iw = np.sign(l_n) * n_w\n", "        n_iw = n_w\n")],
    needs='a circle on the right hand side of the wall',
    breaks='the normal points into the wall, so walls pull from one of their sides',
    demo=PRE + '''from crowddynamics.core.distance import distance_circle_line
h, n = distance_circle_line(np.array((0.5, -0.2)), 0.3, np.array((0., 0.)),
                            np.array((1., 0.)))
assert n[1] < 0, n
''')

plant(
    id='area-last-vertex', property='C18', stubs=['all'],
    edits=[('core/geom2D.py', "    area += x[n-1] * (y[0] - y[n - 2])\n", "    area += x[n-1] * (y[0] - y[n - 3])\n")],
    needs='four or more vertices (triangles use the right formula when n - 3 is 0 and the last vertex is at x = 0)',
    breaks='the area depends on which vertex is the last one',
    demo=PRE + '''from crowddynamics.core.geom2D import polygon_area
v = np.array([(0., 0.), (2., 0.), (2., 1.), (1., 3.)])
areas = [polygon_area(np.roll(v, k, axis=0)) for k in range(4)]
assert np.ptp(areas) < 1e-12, areas
''')

plant(
    id='ranking-is-sorting', property='C19', stubs=['all'],
    edits=[('core/evacuation.py', "    num = np.argsort(d_sorted)\n    return num\n", "    return d_sorted\n")],
    needs='three or more agents whose order is not an involution',
    breaks='agents get the index of another agent in place of their rank',
    demo=PRE + '''from crowddynamics.core.evacuation import agent_closer_to_exit
p = np.array([(3., 0.), (1., 0.), (2., 0.)])
got = agent_closer_to_exit(np.zeros(2), p)
assert list(got) == [2, 0, 1], got
''')

plant(
    id='social-left-of-other', property='C20', stubs=['all'],
    edits=[('core/motion/power_law.py', "    if contact_j == 1:\n        phi = agent[j]['orientation']\n",
            "    if contact_j == 1:\n        phi = agent[i]['orientation']\n")],
    needs='a three-circle agent approaching the left shoulder of another one that is turned differently',
    breaks='the force is the gradient for a shoulder that is somewhere else',
    demo=AGENTS + '''from crowddynamics.core.motion.power_law import force_social_three_circle
body = dict(radius=0.3, r_t=0.1, r_s=0.05, r_ts=0.25, mass=80.0)
rows = [dict(body, orientation=1.0, position=(0.0, 1.5), velocity=(0.0, -1.0)),
        dict(body, position=(0.05, 0.0), velocity=(0.0, 0.0))]
a = make(ThreeCircle, rows)
f, g = force_social_three_circle(a, 0, 1)
b = make(ThreeCircle, rows[::-1])
f2, g2 = force_social_three_circle(b, 0, 1)
assert np.allclose(f, g2) and np.allclose(g, f2), (f, g, f2, g2)
''')

plant(
    id='cell-one-radius', property='C21', stubs=['all'],
    edits=[('simulation/logic.py', "        return self.sight_soc + 2 * self.max_agent_radius\n",
            "        return self.sight_soc + self.max_agent_radius\n")],
    needs='two agents almost at the limit of sight that lie in cells which are not neighbours',
    breaks='pairs within the sight of the social force are missed, depending on where they are',
    demo=AGENTS + '''from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import AgentAgentInteractions
body = dict(radius=0.3, mass=80.0)
seen = []
for x in np.arange(0, 3.5, 0.05):
    s = MultiAgentSimulation()
    s.agents = Agents(agent_type=Circular)
    s.agents.array = make(Circular, [
        dict(body, position=(0.0, 0.0)),
        dict(body, position=(x, 0.0), velocity=(1.0, 0.0)),
        dict(body, position=(x + 3.55, 0.0), velocity=(-1.0, 0.0))])
    AgentAgentInteractions(s).update()
    seen.append(bool(s.agents.array['force'][2].any()))
assert all(seen), seen
''')

plant(
    id='wall-torque-of-all', property='C22', stubs=['all'],
    edits=[('core/interactions.py', "        agents[i]['force'][:] += force\n        agents[i]['torque'] += cross(r_moment, force)\n",
            "        agents[i]['force'][:] += force\n        agents[i]['torque'] += cross(r_moment, agents[i]['force'])\n")],
    needs='a three-circle agent that has other forces on it, or touches two walls at once',
    breaks='the torque contains forces that do not act at that contact',
    demo=AGENTS + '''from crowddynamics.core.interactions import agent_obstacle
from crowddynamics.core.structures import obstacle_type_linear
body = dict(radius=0.3, r_t=0.2, r_s=0.1, r_ts=0.2, mass=80.0)
walls = np.array([((-1., -0.23), (1., -0.23)), ((0.235, -1.), (0.235, 1.))],
                 dtype=obstacle_type_linear)
got = []
for w in (walls, walls[::-1].copy()):
    a = make(ThreeCircle, [dict(body, orientation=0.8)])
    agent_obstacle(a, w)
    got.append(float(a['torque'][0]))
assert abs(got[0] - got[1]) < 1e-6, got
''')

plant(
    id='torque-long-way', property='C23', stubs=['all'],
    edits=[('core/motion/adjusting.py', "           (wrap_to_pi(phi_0 - phi) / np.pi * omega_0 - omega)\n",
            "           ((phi_0 - phi) / np.pi * omega_0 - omega)\n")],
    needs='orientation and target on different sides of the angle pi',
    breaks='the agent turns the long way round, faster than allowed',
    demo=PRE + '''from crowddynamics.core.motion.adjusting import torque_adjust
m = torque_adjust(4.0, 0.2, -3.0, 3.0, 6.0, 0.0)
assert m > 0, m
''')

plant(
    id='shoulders-before-turning', property='C24', stubs=['all'],
    edits=[('core/integrator.py', """    translational_verlet(agents, dt)
    if is_model(agents, 'three_circle'):
        rotational_verlet(agents, dt)
        shoulders(agents)
""", """    translational_verlet(agents, dt)
    if is_model(agents, 'three_circle'):
        shoulders(agents)
        rotational_verlet(agents, dt)
""")],
    needs='a three-circle agent that turns',
    breaks='the shoulders stay those of the former orientation',
    demo=AGENTS + '''from crowddynamics.core.integrator import velocity_verlet_integrator
body = dict(radius=0.3, r_t=0.15, r_s=0.1, r_ts=0.2, mass=80.0,
            inertia_rot=4.0, target_velocity=1.0, angular_velocity=3.0)
a = make(ThreeCircle, [body])
velocity_verlet_integrator(a, 0.1, 0.1)
phi = a['orientation'][0]
want = a['position'][0] + 0.2 * np.array((np.sin(phi), -np.cos(phi)))
assert np.allclose(a['position_rs'][0], want), (a['position_rs'], want)
''')

plant(
    id='poisson-first-tick', property='C25', stubs=['all'],
    edits=[('core/rand.py', "    t_tot = np.random.exponential(scale=interval)\n    while t_tot < dt:\n",
            "    t_tot = np.random.random() * interval\n    while t_tot < dt:\n")],
    needs='the distribution of the first tick over many windows',
    breaks='the number of updates in a window is not Poisson distributed (too many of them)',
    demo=PRE + '''from crowddynamics.core.rand import poisson_clock
np.random.seed(1)
n = [len(list(poisson_clock(1.0, 1.0))) for _ in range(4000)]
assert abs(np.mean(n) - 1.0) < 0.1, np.mean(n)
''')

plant(
    id='triangle-no-root', property='C26', stubs=['all'],
    edits=[('core/sampling.py', "    r1 = np.random.random()\n    r2 = np.random.random()\n",
            "    r1 = np.random.random() ** 2\n    r2 = np.random.random()\n")],
    needs='the distribution of many samples',
    breaks='samples gather at one corner of each triangle',
    demo=PRE + '''from crowddynamics.core.sampling import random_sample_triangle
np.random.seed(1)
a, b, c = np.array((0., 0.)), np.array((1., 0.)), np.array((0., 1.))
m = np.mean([random_sample_triangle(a, b, c) for _ in range(4000)], axis=0)
assert np.allclose(m, 1 / 3, atol=0.03), m
''')

plant(
    id='grid-without-end', property='C27', stubs=['all'],
    edits=[('core/steering/quickest_path.py', "    y = np.arange(miny, maxy + step, step=step)\n",
            "    y = np.arange(miny, maxy, step=step)\n")],
    needs='positions in the uppermost row of the domain',
    breaks='the grid ends before the upper bound, where targets and positions have no cell',
    demo=PRE + '''from crowddynamics.core.steering.quickest_path import meshgrid
g = meshgrid(0.5, 0.0, 0.0, 4.0, 3.0)
i, j = g.indicer((4.0, 3.0))
assert j < g.shape[0] and i < g.shape[1], (i, j, g.shape)
''')

plant(
    id='first-row-default', property='C28', stubs=['all'],
    edits=[('core/steering/navigation.py', "        if not (l <= i < u):\n", "        if not (l < i < u):\n")],
    needs='an agent in the first row or column of the grid',
    breaks='agents along two of the borders of the domain keep their former direction',
    demo=PRE + '''from crowddynamics.core.steering.navigation import getdefault
x, y = np.ones((3, 3)), np.zeros((3, 3))
out = getdefault(np.array([(0, 1)]), (x, y), np.array([(0.0, 1.0)]))
assert list(out[0]) == [1.0, 0.0], out
''')

plant(
    id='neighbour-limit-last', property='C29', stubs=['all'],
    edits=[('core/steering/collective_motion.py', "    distances_max[i] = np.max(distances[i, :])\n",
            "    distances_max[i] = l\n")],
    needs='more agents in sight than are followed, met in an order in which a near one comes before farther ones',
    breaks='nearer agents are skipped while a farther one keeps its place among the nearest',
    demo=PRE + '''from crowddynamics.core.steering.collective_motion import \\
    find_nearest_neighbors
from cell_lists import add_to_cells, neighboring_cells
from crowddynamics.core.structures import obstacle_type_linear
no = np.zeros(0, dtype=obstacle_type_linear)
for seed in range(20):
    p = np.random.RandomState(seed).uniform(0, 3, (12, 2))
    pi, cc, co, gs = add_to_cells(p, 5.0)
    nb = find_nearest_neighbors(p, 5.0, 3, np.arange(len(cc)),
                                neighboring_cells(gs), pi, cc, co, no)
    for i in range(len(p)):
        d = np.hypot(*(p - p[i]).T)
        want = set(np.argsort(d)[1:4])
        assert set(nb[i]) == want, (seed, i, nb[i], want)
''')

plant(
    id='targets-share-reached', property='C30', stubs=['all'],
    edits=[('simulation/logic.py', "        self.reached_by = []\n",
            "        self.reached_by = []\n        reached = np.zeros(size, dtype=np.bool_)\n"),
           ('simulation/logic.py', "                self.reached_by.append(np.zeros(size, dtype=np.bool_))\n",
            "                self.reached_by.append(reached)\n")],
    needs='two targets that are areas',
    breaks='an agent that has reached one target is counted for the others too',
    demo=AGENTS + '''from shapely.geometry import Polygon
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import TargetReached
s = MultiAgentSimulation()
s.field = Field(domain=Polygon([(0, 0), (9, 0), (9, 9), (0, 9)]),
                targets=[Polygon([(1, 1), (2, 1), (2, 2), (1, 2)]),
                         Polygon([(4, 4), (5, 4), (5, 5), (4, 5)])])
s.agents = Agents(agent_type=Circular)
s.agents.array = make(Circular, [dict(position=(1.5, 1.5)), dict(position=(7.5, 7.5))])
node = TargetReached(s)
node.update()
node.update()
assert (s.data['target_0'], s.data['target_1']) == (1, 0), s.data
''')

plant(
    id='density-outward-from-origin', property='C31', stubs=['all'],
    edits=[('core/quantities.py', "            direction = np.sign(np.dot(midpoint - center, n)) * n\n",
            "            direction = np.sign(np.dot(midpoint, n)) * n\n")],
    needs='a crowd that does not lie around the origin',
    breaks='the cells of the outermost agents extend into the crowd',
    demo=PRE + '''from crowddynamics.core.quantities import density_voronoi_1
rng = np.random.RandomState(3)
for seed in range(5):
    p = 15 + rng.uniform(-5, 5, size=(12, 2))
    d = density_voronoi_1(p, 0.5)
    e = density_voronoi_1(p - 15, 0.5)
    assert d.shape == e.shape and np.allclose(d, e), (d, e)
''')

plant(
    id='parts-without-style', property='C33', stubs=['all'],
    edits=[('visualizations.py', "            add_geom(fig, item, **kwargs)\n", "            add_geom(fig, item)\n")],
    needs='a geometry of several parts that is drawn with options',
    breaks='parts of collections are drawn without the given options',
    demo=PRE + '''from shapely.geometry import MultiPolygon, Polygon
from crowddynamics.visualizations import add_geom


class Fig:
    calls = []

    def patch(self, *args, **kwargs):
        self.calls.append(kwargs)


sq = [(0, 0), (1, 0), (1, 1), (0, 1)]
add_geom(Fig(), MultiPolygon([Polygon(sq), Polygon([(x + 3, y) for x, y in sq])]),
         alpha=0.5)
assert Fig.calls == [dict(alpha=0.5)] * 2, Fig.calls
''')

plant(
    id='sample-default-radius', property='C34', stubs=['all'],
    edits=[('simulation/field.py', "        return self._samples(self.spawns[spawn_index], self.obstacles, radius)\n",
            "        return self._samples(self.spawns[spawn_index], self.obstacles)\n")],
    needs='a radius other than the default one',
    breaks='positions closer to obstacles than the given radius are sampled',
    demo=PRE + '''from shapely.geometry import Polygon, LineString, Point
from crowddynamics.simulation.field import Field
np.random.seed(1)
sq = Polygon([(0, 0), (9, 0), (9, 9), (0, 9)])
wall = LineString([(0, 0), (9, 0)])
f = Field(domain=sq, obstacles=wall, spawns=[sq])
g = f.sample_spawn(0, radius=3.0)
d = [next(g)[1] for _ in range(300)]
assert min(d) > 2.9, min(d)
''')

plant(
    id='reset-wrong-torque', property='C35', stubs=['all'],
    edits=[('simulation/logic.py', "            agents['torque'] = 0\n", "            agents['torque_prev'] = 0\n")],
    needs='three-circle agents over several iterations',
    breaks='torques of all former iterations add up',
    demo=AGENTS + '''from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import Reset
s = MultiAgentSimulation()
s.agents = Agents(agent_type=ThreeCircle)
s.agents.array = make(ThreeCircle, [dict(torque=3.0, mass=80.0)])
Reset(s).update()
assert s.agents.array['torque'][0] == 0
''')

plant(
    id='empty-members-dropped', property='C03', stubs=['all'],
    edits=[('io.py', "        return {name: mapping(geo) for name, geo in geom.items()}\n",
            "        return {name: mapping(geo) for name, geo in geom.items()\n"
            "                if not geo.is_empty}\n")],
    needs='a mapping of geometries of which one is empty',
    breaks='empty members of a mapping are missing after loading',
    demo=PRE + '''import os
from shapely.geometry import Point, Polygon
from crowddynamics.io import save_geometry_json, load_geometry_json
p = os.path.join(os.environ['SCRATCH'], 'g.json')
g = {'spawns': {'a': Point(1, 2), 'b': Polygon()}}
save_geometry_json(p, g)
got = load_geometry_json(p)
assert sorted(got['spawns']) == ['a', 'b'], got
''')

plant(
    id='partly-invalid-section', property='C05', stubs=['all'],
    edits=[('config.py', "        raise ValidationError\n",
            "        result = config.validate(Validator())\n"
            "        if not isinstance(result, dict) or \\\n"
            "                not all(result.values()):\n"
            "            raise ValidationError\n")],
    needs='a section in which some values are valid and others are not, beside a section that is all valid',
    breaks='a file with invalid values beside valid ones in the same section is accepted',
    demo=PRE + '''import os
from crowddynamics.config import load_config
from crowddynamics.exceptions import ValidationError
d = os.environ['SCRATCH']
spec, conf = os.path.join(d, 'spec.cfg'), os.path.join(d, 'a.cfg')
with open(spec, 'w') as fp:
    fp.write("[a]\\nx = integer(min=0)\\ny = integer(min=0)\\n[b]\\nx = integer\\n")
with open(conf, 'w') as fp:
    fp.write("[a]\\nx = 1\\ny = -1\\n[b]\\nx = 1\\n")
try:
    load_config(conf, spec)
except ValidationError:
    pass
else:
    raise AssertionError('accepted')
''')

plant(
    id='unset-values-not-loaded', property='C12', stubs=['all'],
    edits=[('simulation/agents.py', "            setattr(self, field, value)\n",
            "            if np.any(value):\n"
            "                setattr(self, field, value)\n")],
    needs='a record with zero values that is loaded into an agent whose values are not zero',
    breaks='values that are zero or false in the record keep the value of the agent',
    demo=PRE + '''from crowddynamics.simulation.agents import Circular
a = np.array(Circular(radius=0.3, velocity=(0.0, 0.0)))
b = Circular(radius=0.2, velocity=(1.0, 2.0))
b.from_array(a)
assert np.array(b)['velocity'].tolist() == [[0.0, 0.0]], b.velocity
''')

plant(
    id='first-wall-only', property='C36', stubs=['all'],
    edits=[('core/interactions.py', "    for i in range(len(agents)):\n        for w in range(len(obstacles)):\n            interaction_agent_circular_obstacle(i, w, agents, obstacles)\n",
            "    for i in range(len(agents)):\n        for w in range(len(obstacles)):\n            before = agents[i]['force'][0]\n"
            "            interaction_agent_circular_obstacle(i, w, agents, obstacles)\n"
            "            if agents[i]['force'][0] != before:\n                break\n")],
    needs='an agent that touches two walls at once, in a corner',
    breaks='the result depends on the numbering of the walls, and people are pushed through the second one',
    demo=AGENTS + '''from crowddynamics.core.interactions import agent_obstacle
from crowddynamics.core.structures import obstacle_type_linear
w = np.zeros(2, dtype=obstacle_type_linear)
w[0] = ((0, -1), (0, 9))
w[1] = ((-1, 0), (9, 0))
out = []
for walls in (w, w[::-1].copy()):
    a = make(Circular, [dict(position=(0.2, 0.2), radius=0.25, mass=80.0)])
    agent_obstacle(a, walls)
    out.append(a['force'][0].tolist())
assert np.allclose(out[0], out[1]), out
''')
