"""Simulation processes run in this process (many histories, exact event logs)
and as real forked child processes (stops from the parent at random moments),
ending by stop requests, library errors and any other exception at any
iteration. The recorded queue contents are checked offline against: everything
put, in order, then exactly one end marker and nothing after. Non-trivial: the
simulation put items and ended by a stop or an error after the first update."""
import multiprocessing
import os
import queue as queue_module
import sys
import threading
import time

from crowddynamics import exceptions as ex
from crowddynamics.simulation.logic import LogicNode
from crowddynamics.simulation.multiagent import MultiAgentSimulation, \
    MultiAgentProcess
from harness import section, Inconclusive

RULE = __doc__


class Hard(BaseException):
    pass


class Derived(ex.OverlappingError):
    pass


ERRORS = [ex.CrowdDynamicsException, ex.InvalidType, ex.InvalidValue,
          ex.ValidationError, ex.OverlappingError, ex.AgentStructureFull,
          Derived, ValueError, RuntimeError, ZeroDivisionError, KeyError,
          MemoryError, OSError, StopIteration, GeneratorExit,
          KeyboardInterrupt, SystemExit, Hard]


class Producer(LogicNode):
    """Puts ``per`` items per update; stops or raises at an iteration."""
    process = None
    queue = None
    per = 1
    stop_at = None
    raise_at = None
    error = None
    when = 'after'
    delay = 0.0
    flag = None
    stopped_seen = 0
    updates = 0

    def update(self):
        if self.flag is not None and self.flag.is_set():
            self.stopped_seen += 1
        if self.when == 'before':
            self.act()
        for k in range(self.per):
            self.queue.put((self.updates, k))
        if self.delay:
            time.sleep(self.delay)
        self.updates += 1
        if self.when == 'after':
            self.act()

    def act(self):
        u = self.updates - (self.when == 'after')
        if self.stop_at == u:
            self.process.stop()
        if self.raise_at == u:
            raise self.error('injected')


class Report(LogicNode):
    """Last node of the update: reports counters through the queue."""
    producer = None
    queue = None

    def update(self):
        p = self.producer
        self.queue.put(('report', p.updates, p.stopped_seen))


def check_queue(c, items, marker, want, history):
    ends = [i for i, x in enumerate(items) if x is marker]
    c.check(len(ends) >= 1, 'no-end-marker', 'items', len(items), history)
    c.check(len(ends) == 1, 'several-end-markers', ends, history)
    c.check(ends[0] == len(items) - 1, 'items-after-marker', items[ends[0]:],
            history)
    if want is not None:
        c.equal(items[:-1], want, 'items', history)


@section('in-process', 400, 20000)
def in_process(c):
    r = c.rng
    # a condition of its own that never ends the simulation
    sim = MultiAgentSimulation(exit_condition=r.choice(
        [None, None, lambda s: False, lambda s: 0]))
    q = queue_module.Queue()
    proc = c.call('construct', MultiAgentProcess, sim, q)
    node = Producer(sim)
    sim.logic = node
    node.queue, node.process = q, proc
    node.per = r.choice([0, 1, 1, 3])
    node.when = r.choice(['before', 'after'])
    mode = r.choice(['stop', 'stop', 'raise', 'raise', 'raise', 'pre-stop',
                     'both', 'twice'])
    k = r.choice([0, 0, 1, 2, 5, 40]) if r.random() < .96 else \
        r.choice([150, 1100])
    if mode in ('stop', 'both', 'twice'):
        node.stop_at = k
    if mode in ('raise', 'both'):
        node.raise_at = k if mode == 'raise' else r.choice([k, k + 3])
        node.error = r.choice(ERRORS)
    if mode == 'twice':
        node.stop_at = k
    if mode == 'pre-stop':
        c.call('stop', proc.stop)
        if r.random() < .3:
            c.call('stop', proc.stop)
    history = dict(mode=mode, k=k, per=node.per, when=node.when,
                   error=node.error and node.error.__name__,
                   raise_at=node.raise_at, stop_at=node.stop_at)
    c.note(history)
    try:
        proc.run()
        ended = None
    except BaseException as e:
        if type(e).__name__ == 'CaseTimeout':
            raise
        ended = type(e)
        c.check(node.error is not None and issubclass(ended, node.error),
                'unexpected-error', repr(e), history)
    want = []
    # what the simulation put, by the specification
    if mode == 'pre-stop':
        updates, partial = 0, False
    else:
        last = k
        partial = node.raise_at == k and node.when == 'before'
        updates = last + (0 if partial else 1)
    for u in range(updates):
        want += [(u, j) for j in range(node.per)]
    items = []
    while True:
        try:
            items.append(q.get_nowait())
        except queue_module.Empty:
            break
    c.check(node.updates <= updates, 'updates-after-stop', node.updates,
            'expected', updates, history)
    check_queue(c, items, MultiAgentProcess.EndProcess, want, history)
    c.count('in_process_histories')
    c.state('endings', mode, node.error, min(k, 3), node.when)
    if mode != 'pre-stop' and k > 0 and node.per:
        c.nontrivial(sorted(history.items(), key=str))
    c.sample(history)


@section('threaded-stop', 60, 2000)
def threaded(c):
    """The stop request comes from another thread while updating."""
    r = c.rng
    sim = MultiAgentSimulation()
    q = queue_module.Queue()
    proc = MultiAgentProcess(sim, q)
    node = Producer(sim)
    sim.logic = node
    node.queue, node.process = q, proc
    node.delay = r.choice([0.0, 0.0005])
    node.flag = threading.Event()
    after = r.choice([0, 1, 5, 30])

    def stopper():
        while node.updates < after:
            time.sleep(0.0001)
        proc.stop()
        node.flag.set()
    t = threading.Thread(target=stopper)
    t.start()
    c.call('run', proc.run)
    t.join()
    items = []
    while not q.empty():
        items.append(q.get())
    c.check(node.stopped_seen <= 1, 'updates-after-stop', node.stopped_seen)
    check_queue(c, items, MultiAgentProcess.EndProcess,
                [(u, 0) for u in range(node.updates)], after)
    c.nontrivial(after, node.updates)
    c.count('threaded_histories')


def quiet_start(proc):
    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        sys.stderr.flush()
        os.dup2(null, 2)
        proc.start()
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(null)


@section('child', 48, 800, weight=3.0)
def child(c):
    r = c.rng
    ctx = multiprocessing
    sim = MultiAgentSimulation()
    # the reader can be slower than a queue of limited size
    q = ctx.Queue() if r.random() < .6 else ctx.Queue(r.choice([1, 2, 5]))
    if r.random() < .3:
        sim.exit_condition = lambda s: False
    proc = c.call('construct', MultiAgentProcess, sim, q)
    node = Producer(sim)
    tail = Report(sim)
    sim.logic = tail << node
    tail.producer = node
    node.queue = tail.queue = q
    node.process = proc
    node.flag = ctx.Event()
    node.per = r.choice([0, 1, 3])
    node.when = r.choice(['before', 'after'])
    mode = r.choice(['parent', 'parent', 'raise', 'raise', 'self', 'pre'])
    k = r.choice([0, 1, 3, 20, 150])
    if mode == 'self':
        node.stop_at = k
    if mode == 'raise':
        node.raise_at = k
        node.error = r.choice([e for e in ERRORS])
    if mode == 'parent':
        node.delay = r.choice([0.0, 0.001, 0.01])
    history = dict(mode=mode, k=k, per=node.per, when=node.when,
                   error=node.error and node.error.__name__)
    c.note(history)
    if mode == 'pre':
        c.call('stop', proc.stop)
        node.flag.set()
    c.call('start', quiet_start, proc)
    items = []
    end = time.time() + 60
    stopped = mode != 'parent'
    wait = r.choice([0, 0, 2, 10])
    marker = MultiAgentProcess.EndProcess
    try:
        while True:
            if not stopped and len(items) >= wait:
                if r.random() < .5:
                    time.sleep(r.random() * .01)
                c.call('stop', proc.stop)
                node.flag.set()
                stopped = True
            try:
                items.append(q.get(timeout=0.2))
                if items[-1] is marker and not proc.is_alive():
                    break
            except queue_module.Empty:
                if not proc.is_alive():
                    # the feeder thread of the child has flushed by now
                    try:
                        while True:
                            items.append(q.get(timeout=0.2))
                    except queue_module.Empty:
                        break
            if marker in items and len(items) > 3 + items.index(marker):
                break
            if time.time() > end:
                raise Inconclusive('child did not end in 60 s')
            if len(items) > 200000:
                c.fail('does-not-stop', history)
        proc.join(20)
        try:
            while True:
                items.append(q.get(timeout=0.05))
        except queue_module.Empty:
            pass
    finally:
        if proc.is_alive():
            proc.terminate()
            proc.join(10)
        q.close()
    check_queue(c, items, marker, None, history)
    body = items[:-1]
    reports = [x for x in body if x[0] == 'report']
    puts = [x for x in body if x[0] != 'report']
    if mode == 'pre':
        c.equal(body, [], 'updates-after-stop', history)
    elif mode == 'parent':
        n = len(reports)
        c.equal(puts, [(u, j) for u in range(n) for j in range(node.per)],
                'items', history)
        if reports:
            c.check(reports[-1][2] <= 1, 'updates-after-stop', reports[-1],
                    history)
    else:
        partial = node.raise_at == k and node.when == 'before'
        n = k + (0 if partial else 1)
        c.equal(puts, [(u, j) for u in range(n) for j in range(node.per)],
                'items', history)
        c.equal([x[1] for x in reports],
                [u + 1 for u in range(k + (mode == 'self'))], 'reports',
                history)
    c.count('child_processes')
    c.count('items_received', len(items))
    c.state('child-endings', mode, node.error, node.when)
    c.nontrivial(sorted(history.items(), key=str), len(items) > 1)
    c.sample(dict(history, items=len(items)))
