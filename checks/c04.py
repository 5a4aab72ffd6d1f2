"""Live simulations with a recorder injected into their logic tree. A witness
node directly above the recorder copies the agents and the data right after the
recorder ran; the files on disk are re-read after every iteration and checked
against the witness log. Non-trivial: at least two saves, or saves with
unsaved iterations left over, on a run of at least three iterations."""
import csv
import datetime
import functools
import os
from collections import OrderedDict

import numpy as np
from shapely.geometry import LineString, Point, Polygon, box

from crowddynamics import io as cio
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import Adjusting, Integrator, LogicNode, \
    Reset, SaveSimulationData, Fluctuation, InsideDomain, Orientation
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from geoms import plain
from harness import section
from sims import diff_fields, make_agents, records_equal

RULE = __doc__


class Witness(LogicNode):
    log = None

    def update(self):
        self.log.append((np.array(self.simulation.agents.array, copy=True),
                         OrderedDict(self.simulation.data)))


class Extra(LogicNode):
    """Writes further data every iteration."""
    value = 0
    kind = 0

    def update(self):
        self.value += 1
        self.simulation.data['extra'] = \
            [self.value, self.value / 7.0, np.float64(self.value) / 3,
             'text, "%d"' % self.value][self.kind]


def make_field(c):
    r = c.rng
    w, h = r.choice([5.0, 12.5]), r.choice([4.0, 30.0])
    domain = box(-1, -1, w, h) if r.random() < .8 else \
        Polygon([(-1, -1), (w, -1), (w, h), (-1, h)],
                [[(1, 1), (2, 1), (2, 2)]])
    targets = [LineString([(0, 0), (0, h)])]
    if r.random() < .5:
        targets.append(Polygon([(0.5, 0), (1, 0), (1, 1.25)]))
    obstacles = r.choice([
        None, LineString([(0, 0), (w, 0)]),
        LineString([(0, 0), (w, 0)]) | LineString([(0, h), (w, h)]),
        Point(2, 2).buffer(.5)])
    spawns = [box(0, 0, w / 3, h / 2)] * r.choice([0, 1, 2])
    f = Field(domain=domain, targets=targets, spawns=spawns)
    if obstacles is not None:
        f.obstacles = obstacles
    return f


def build(c, cls, base, witness_log, cond, **kw):
    r = c.rng
    sim = cls(**kw)
    sim.field = make_field(c)
    model = r.choice(['circular', 'three_circle'])
    sim.agents = c.call('agents', make_agents, c, model, r.choice([1, 2, 5]))
    extra = Extra(sim)
    extra.kind = r.randrange(4)
    parts = [Adjusting(sim), extra]
    if r.random() < .4:
        parts.append(Fluctuation(sim))
    if r.random() < .3:
        parts.append(Orientation(sim))
    inner = Integrator(sim) << tuple(parts)
    if r.random() < .3:
        inner = InsideDomain(sim) << inner
    tree = Reset(sim) << inner
    sim.logic = tree
    kwargs = dict(save_condition=cond)
    where = os.path.join(base, r.choice(['', 'out', os.path.join('a', 'b')]))
    os.makedirs(where, exist_ok=True)
    if where != os.getcwd() or r.random() < .5:
        kwargs['base_directory'] = where if r.random() < .6 else \
            os.path.relpath(where)
    if r.random() < .6:
        kwargs['save_directory'] = r.choice(['rec', 'my sim', 'é']) + \
            str(r.randrange(10 ** 6))
    saver = c.call('construct-saver', SaveSimulationData, sim, **kwargs)
    c.call('inject', saver.add_to_simulation_logic)
    w = Witness(sim)
    w.log = witness_log
    c.call('inject', saver.inject_before, w)
    name = kwargs.get('save_directory')
    path = os.path.join(os.path.abspath(kwargs.get('base_directory', '.')),
                        name if name is not None else sim.name_with_timestamp)
    return sim, saver, path


def read_rows(path):
    if not os.path.exists(path):
        return None
    with open(path, newline='') as fp:
        return list(csv.reader(fp))


def verify(c, sim, path, log, saves, history):
    """The files against the witness log; ``saves``: the numbers of recorded
    iterations at each save."""
    upto = saves[-1] if saves else 0
    chunks = c.call('load', lambda: list(cio.load_npy(path, 'agents')))
    c.equal(len(chunks), len(saves), 'chunks', history)
    start = 0
    for chunk, end in zip(chunks, saves):
        c.equal(len(chunk), end - start, 'states-in-chunk', history)
        for k in range(end - start):
            want = log[start + k][0]
            c.check(chunk.dtype == want.dtype, 'dtype')
            c.check(records_equal(chunk[k], want), 'agent-state', 'iteration',
                    start + k, history)
            c.count('agent_states_compared')
        start = end
    rows = read_rows(os.path.join(path, 'data.csv'))
    if not saves:
        c.check(rows is None or rows == [], 'rows-without-save', rows)
        return
    c.check(rows is not None and len(rows) == upto + 1, 'rows', 'got',
            rows and len(rows) - 1, 'expected', upto, history)
    header = rows[0]
    c.equal(sorted(header), sorted(log[0][1]), 'columns', history)
    for k in range(upto):
        got = dict(zip(header, rows[k + 1]))
        for key, v in log[k][1].items():
            t = got[key]
            if isinstance(v, (float, np.floating)):
                c.check(float(t) == float(v), 'data-value', key, 'iteration',
                        k, t, v, history)
            else:
                c.check(t == str(v), 'data-value', key, 'iteration', k, t, v,
                        history)
    c.count('data_rows_compared', upto)


@section('recording', 160, 8000)
def recording(c):
    r = c.rng
    base = os.path.realpath(c.tmpdir())
    old = os.getcwd()
    os.chdir(base)
    try:
        sims = []
        n_sims = r.choice([1, 1, 2])
        for k in range(n_sims):
            calls, known = [], {}
            mode = r.choice(['every', 'period', 'random', 'random', 'never',
                             'first', 'stateful', 'by call'])
            period = r.choice([2, 3, 5])
            pattern = [r.random() < .3 for _ in range(60)]

            def cond(sim, frequency=period, mode=mode, calls=calls,
                     pattern=pattern, known=known):
                i = sim.data['iterations']
                if mode == 'every':
                    v = True
                elif mode == 'period':
                    v = (i + 1) % frequency == 0
                elif mode == 'random':
                    v = pattern[i % 60]
                elif mode == 'never':
                    v = False
                elif mode == 'by call':   # a new answer at every call
                    v = pattern[len(calls) % 60]
                elif mode == 'first':
                    v = i == 0
                else:
                    # as 'period', from a history of its own
                    known.setdefault(i, len(known) % frequency == 1)
                    v = known[i]
                calls.append((sim, i, v))
                return [v, np.bool_(v), int(v), ['', 'x'][bool(v)],
                        [0, 7.5][bool(v)]][i % 5]
            if r.random() < .3:
                cond = functools.partial(cond)
            log = []
            cls = type('Sim%d' % k, (MultiAgentSimulation,), {})
            kw = {}
            if r.random() < .3:
                kw['timestamp'] = datetime.datetime(
                    2017, 5, 6, 7, 8, 9 + k, tzinfo=datetime.timezone.utc)
            if r.random() < .3:
                kw['metadata'] = OrderedDict(note='a, b', n=3)
            sim, saver, path = build(c, cls, base, log, cond, **kw)
            sims.append((sim, path, log, calls, mode, []))
            c.note('simulation', k, mode, period, path)
        for sim, path, log, calls, mode, saves in sims:
            c.check(os.path.isdir(path), 'no-directory', path,
                    os.listdir(base))
            meta = read_rows(os.path.join(path, 'metadata.csv'))
            c.check(meta is not None and len(meta) == 2, 'metadata', meta)
            c.equal(dict(zip(*meta)),
                    {k: str(v) for k, v in sim.metadata.items()}, 'metadata')
            geo = c.call('load-geometry', cio.load_geometry_json,
                         os.path.join(path, 'geometry.json'))
            f = sim.field
            for name in ('domain', 'obstacles', 'targets', 'spawns'):
                want, got = getattr(f, name), geo[name]
                if want is None:
                    c.check(got is None, 'geometry', name)
                elif isinstance(want, list):
                    c.equal([plain(g) for g in got],
                            [plain(g) for g in want], 'geometry', name)
                else:
                    c.equal(plain(got), plain(want), 'geometry', name)
        n = r.choice([1, 3, 6, 12, 25])
        if r.random() < .15:     # the simulation goes on somewhere else
            away = os.path.join(base, 'somewhere else', 'far', 'away')
            os.makedirs(away)
            os.chdir(away)
            c.count('moved away')
        for it in range(n * n_sims):
            sim, path, log, calls, mode, saves = r.choice(sims)
            before_calls = len(calls)
            before = len(log)
            c.call('update', sim.update)
            c.equal(len(log), before + 1, 'witness')
            # nothing happens after the recording
            arr, data = log[-1]
            c.check(records_equal(arr, sim.agents.array), 'recorded-too-early',
                    'changed afterwards',
                    diff_fields(arr, sim.agents.array))
            c.equal([k for k in data if k != 'iterations' and
                     sim.data[k] != data[k]], [], 'recorded-too-early')
            new = calls[before_calls:]
            c.check(new, 'save-condition-not-evaluated', 'iteration', before)
            c.check(all(x[0] is sim for x in new), 'save-condition-argument')
            v = new[-1][2]
            i = new[-1][1]
            c.equal(i, before, 'save-condition-iteration')
            chunks = len(c.call('load', lambda: list(
                cio.load_npy(path, 'agents'))))
            if v:
                saves.append(len(log))
            c.equal(chunks, len(saves), 'chunks-after-update', 'iteration', i)
            if it % 5 == 0 or it == n * n_sims - 1:
                for s in sims:
                    verify(c, s[0], s[1], s[2], s[5], s[4])
        for s in sims:
            verify(c, s[0], s[1], s[2], s[5], s[4])
        c.count('iterations', n * n_sims)
        c.count('saves', sum(len(s[5]) for s in sims))
        for s in sims:
            if len(s[2]) >= 3 and s[5] and (len(s[5]) > 1 or
                                            s[5][-1] < len(s[2])):
                c.nontrivial([(x[4], len(x[2]), x[5]) for x in sims])
        c.sample([(x[4], len(x[2]), x[5]) for x in sims])
    finally:
        os.chdir(old)
