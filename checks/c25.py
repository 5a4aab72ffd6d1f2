"""Large batches of draws for random masses, scales, bounds, intervals and
windows: bounds on every draw, Kolmogorov-Smirnov and counting monitors on each
batch (chance of a false alarm below 1e-9 per test), consistency of the emitted
player order with the clocks that were observed, and snapshots of the caller's
data. Non-trivial: a batch with spread (positive scale, at least one event)."""
import math

import numpy as np

from crowddynamics.core import rand as R
from crowddynamics.core.motion.fluctuation import force_fluctuation, \
    torque_fluctuation
from crowddynamics.simulation.logic import Fluctuation
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from harness import section
from sims import diff_fields, flags, make_agents, snapshot
from stats import LAMBDA, binomial_ok, exp_cdf, ks, poisson_ok, \
    truncnorm_cdf, uniform_cdf

RULE = __doc__


def law(c, values, cdf, mech, *detail):
    d = ks(values, cdf)
    c.count('ks-tests')
    c.count('draws', len(values))
    c.check(d < LAMBDA, mech, 'KS', d, 'of', len(values), *detail)


def unrelated(c, a, b, mech):
    """Rank correlation of two batches of draws is plausible for none."""
    n = len(a)
    ra, rb = np.argsort(np.argsort(a)), np.argsort(np.argsort(b))
    rho = np.corrcoef(ra, rb)[0, 1]
    c.check(abs(rho) * math.sqrt(n) < 6.5, mech, 'rank correlation', rho, n)


def check_force(c, F, mass, scale, mech):
    n = len(mass)
    c.equal(np.asarray(F).shape, (n, 2), mech + 'shape')
    top = 3 * mass * scale
    size = np.hypot(F[:, 0], F[:, 1])
    c.check(np.all(np.isfinite(F)), mech + 'finite')
    c.check(np.all(size <= top * (1 + 1e-9)), mech + 'over-three-scales',
            float((size / np.maximum(top, 1e-300)).max(initial=0)))
    return size


@section('fluctuation', 40, 2000)
def fluctuation(c):
    r = c.rng
    n = r.choice([1, 2, 50, 3000, 3000])
    one = r.random() < .3
    mass = np.array([r.uniform(1, 120) for _ in range(n)])
    scale = np.array([r.uniform(.01, 5) for _ in range(n)])
    if one:
        scale[:] = r.choice([.1, 2.0])
    if r.random() < .1:
        scale[:] = 0.0
    keep = mass.copy(), scale.copy()
    F = c.call('force_fluctuation', force_fluctuation, mass, scale)
    T = c.call('torque_fluctuation', torque_fluctuation, mass, scale)
    c.check(np.array_equal(mass, keep[0]) and np.array_equal(scale, keep[1]),
            'argument-changed')
    size = check_force(c, F, mass, scale, 'force-')
    c.equal(np.asarray(T).shape, (n,), 'torque-shape')
    c.check(np.all(np.abs(T) <= 3 * mass * scale * (1 + 1e-9)),
            'torque-over-three-scales')
    if scale[0] == 0:
        c.check(not F.any() and not T.any(), 'force-without-scale')
        return
    if n >= 1000:
        law(c, size / (mass * scale), truncnorm_cdf(0, 3), 'force-law')
        ang = np.arctan2(F[:, 1], F[:, 0])
        law(c, ang, uniform_cdf(-math.pi, math.pi), 'direction-law')
        law(c, T / (mass * scale), truncnorm_cdf(-3, 3), 'torque-law')
        c.check(binomial_ok(int((T > 0).sum()), n, .5), 'torque-one-sided',
                int((T > 0).sum()), n)
        unrelated(c, size / (mass * scale), mass, 'force-mass')
        unrelated(c, size / (mass * scale), ang, 'force-direction')
        unrelated(c, size[:-1] / (mass * scale)[:-1],
                  size[1:] / (mass * scale)[1:], 'neighbours')
        unrelated(c, ang[:-1], ang[1:], 'neighbour-directions')
        F2 = force_fluctuation(mass, scale)
        unrelated(c, np.arctan2(F2[:, 1], F2[:, 0]), ang, 'repeated')
    c.nontrivial(n, mass[0], scale[0])
    c.sample((n, one, float(mass[0]), float(scale[0])))


@section('truncated', 60, 4000)
def truncated(c):
    r = c.rng
    a, b = r.choice([(0.0, 3.0), (-3.0, 3.0), (-1.0, .5), (-2.0, 5.0),
                     (.5, 2.0), (-3.0, -1.0)])
    loc = r.choice([0.0, r.uniform(-50, 50)])
    form = r.randrange(3)
    n = r.choice([1, 7, 3000])
    kw, scale = {}, 1.0
    if form == 1:
        kw['scale'] = scale = r.uniform(.01, 9)
    elif form == 2:
        kw['abs_scale'] = q = r.uniform(.01, 9)
        scale = q / max(abs(a), abs(b))
    if loc or r.random() < .5:
        kw['loc'] = loc
    if n != 1 or r.random() < .5:
        kw['size'] = n
    x = c.call('truncnorm', R.truncnorm, a, b, **kw)
    c.equal(np.asarray(x).shape, (n,), 'sample-shape')
    tiny = 1e-9 * (abs(loc) + scale * 5)
    c.check(np.all(x >= loc + a * scale - tiny) and
            np.all(x <= loc + b * scale + tiny), 'outside-bounds',
            float(x.min()), float(x.max()), (a, b, loc, scale))
    if n >= 1000:
        law(c, (x - loc) / scale, truncnorm_cdf(a, b), 'truncated-law',
            (a, b, kw))
    seed = r.randrange(2 ** 31)
    y = R.truncnorm(a, b, random_state=seed, **kw)
    z = R.truncnorm(a, b, random_state=seed, **kw)
    c.check(np.array_equal(y, z), 'seed-does-not-repeat')
    c.nontrivial(a, b, sorted(kw.items()))
    c.sample((a, b, kw))


@section('vectors', 40, 2000)
def vectors(c):
    r = c.rng
    n = r.choice([0, 1, 3, 2000])
    lo = r.choice([0.0, -math.pi, r.uniform(-3, 3)])
    hi = lo + r.choice([2 * math.pi, math.pi, r.uniform(.1, 6)])
    mag = r.choice([1.0, 0.5, r.uniform(.01, 20)])
    kw = {}
    if r.random() < .7:
        kw['orient'] = (lo, hi)
    else:
        lo, hi = 0.0, 2 * math.pi
    if mag != 1.0:
        kw['mag'] = mag
    v = c.call('random_vector', R.random_vector, n, **kw)
    c.equal(np.asarray(v).shape, (n, 2), 'vector-shape')
    c.check(np.all(np.abs(np.hypot(v[:, 0], v[:, 1]) - mag) <= 1e-9 * mag),
            'vector-length')
    ang = np.mod(np.arctan2(v[:, 1], v[:, 0]) - lo, 2 * math.pi)
    ang[ang > 2 * math.pi - 1e-9] = 0
    c.check(np.all(ang <= hi - lo + 1e-9), 'vector-angle',
            float(ang.max(initial=0)), lo, hi)
    if n >= 1000:
        law(c, ang, uniform_cdf(0, hi - lo), 'vector-angle-law', lo, hi)
    if n:
        c.nontrivial(n, sorted(kw.items()))
    c.sample((n, kw))


@section('clock', 60, 3000)
def clock(c):
    r = c.rng
    interval = 10 ** r.uniform(-2, 1)
    events = r.choice([.1, 1.0, 20.0])
    dt = interval * events
    runs = r.choice([20, 100])
    counts, gaps, first = [], [], []
    for _ in range(runs):
        t = [float(x) for x in c.call('poisson_clock', lambda: list(
            R.poisson_clock(interval, dt)))]
        c.check(all(0 < x < dt for x in t), 'outside-window', t[:3], t[-3:],
                dt)
        c.check(all(x < y for x, y in zip(t, t[1:])), 'not-increasing', t)
        counts.append(len(t))
        # given their number, the times are spread evenly over the window
        gaps += [x / dt for x in t]
    c.check(poisson_ok(sum(counts), runs * events), 'rate', sum(counts),
            'expected', runs * events)
    if len(gaps) > 100:
        law(c, gaps, uniform_cdf(0, 1), 'times-law', interval, dt)
        # Poisson counts: variance equals mean (loose, both sides)
        if events >= 1:
            m = events
            q = sum((k - m) ** 2 for k in counts) / m
            c.check(.2 * runs < q < 4 * runs + 40, 'count-variance', q, runs)
    c.count('events', sum(counts))
    c.equal(list(R.poisson_clock(interval, 0.0)), [], 'empty-window')
    if sum(counts):
        c.nontrivial(interval, dt)
    c.sample((interval, dt, sum(counts)))


@section('timings', 60, 3000)
def timings(c):
    r = c.rng
    n = r.choice([0, 1, 2, 5, 40])
    players = np.array(r.sample(range(1000), n), dtype=np.int64)
    if r.random() < .3:
        players = np.sort(players)
    interval = r.uniform(.01, 2)
    events = r.choice([.2, 1.0, 8.0])
    dt = interval * events
    keep = players.copy()
    log = []
    real = R.poisson_clock

    def watched(*a, **k):
        mine = []
        log.append(mine)
        for t in real(*a, **k):
            mine.append(float(t))
            yield t
    total, per, firsts = 0, {}, []
    runs = r.choice([5, 40])
    try:
        R.poisson_clock = watched
        for _ in range(runs):
            del log[:]
            out = [int(x) for x in c.call('poisson_timings', lambda: list(
                R.poisson_timings(players, interval, dt)))]
            c.check(np.array_equal(players, keep), 'players-changed',
                    players[:6], keep[:6])
            c.check(set(out) <= set(map(int, keep)), 'unknown-player', out)
            total += len(out)
            for p in out:
                per[p] = per.get(p, 0) + 1
            firsts += out[:1]
            if log:
                # the k-th emitted player owns the clock with the k-th time
                events_ = sorted((t, k) for k, m in enumerate(log) for t in m)
                c.equal(len(out), len(events_), 'events-emitted')
                owner = {}
                for p, (t, k) in zip(out, events_):
                    c.check(owner.setdefault(k, p) == p, 'not-in-time-order',
                            out, events_)
                c.check(len(set(owner.values())) == len(owner),
                        'not-in-time-order', out, events_)
                c.count('ordered-events', len(out))
    finally:
        R.poisson_clock = real
    c.check(poisson_ok(total, runs * n * events), 'timings-rate', total,
            runs * n * events)
    for p, k in per.items():
        c.check(poisson_ok(k, runs * events), 'rate-of-player', p, k)
    if n > 1 and firsts:
        for p in set(map(int, keep)):
            c.check(binomial_ok(firsts.count(p), len(firsts), 1 / n),
                    'first-player', p, firsts.count(p), len(firsts))
    if total:
        c.nontrivial(keep.tolist(), interval, dt)
    c.sample((n, interval, dt, total))


@section('node', 30, 1200)
def node(c):
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n = r.choice([1, 9, 25])
    sim = MultiAgentSimulation()
    sim.agents = make_agents(c, model, n)
    arr = sim.agents.array
    flags(r, arr)
    for g in arr:
        g['std_rand_force'] = r.choice([0.0, .1, r.uniform(0, 3)])
        if model == 'three_circle':
            g['std_rand_torque'] = r.choice([0.0, .1, r.uniform(0, 3)])
    logic = c.call('construct', Fluctuation, sim)
    dirs, torques, sizes = [], [], []
    for step in range(4):
        for g in arr:
            g['force'] = (r.uniform(-5, 5), r.uniform(-5, 5))
        a = snapshot(arr)
        c.call('Fluctuation.update', logic.update)
        F = arr['force'] - a['force']
        top = 3 * a['mass'] * a['std_rand_force']
        size = np.hypot(F[:, 0], F[:, 1])
        c.check(np.all(size <= top * (1 + 1e-9) + 1e-9),
                'node-over-three-scales', size, top)
        on = a['std_rand_force'] > 0
        c.check(np.all(size[on] > 0), 'node-no-force')
        dirs += list(np.arctan2(F[on, 1], F[on, 0]))
        sizes += list(3 * size[on] / top[on])
        may = {'force'}
        if model == 'three_circle':
            may.add('torque')
            T = arr['torque'] - a['torque']
            top = 3 * a['inertia_rot'] * a['std_rand_torque']
            c.check(np.all(np.abs(T) <= top * (1 + 1e-9) + 1e-9),
                    'node-torque-over-three-scales', T, top)
            on = a['std_rand_torque'] > 0
            torques += list(3 * T[on] / top[on])
        c.check(set(diff_fields(a, arr)) <= may, 'other-attribute',
                diff_fields(a, arr))
    if len(dirs) > 20:
        law(c, dirs, uniform_cdf(-math.pi, math.pi), 'node-direction-law')
        law(c, sizes, truncnorm_cdf(0, 3), 'node-force-law')
        c.nontrivial(arr.tobytes())
    if len(torques) > 20:
        law(c, torques, truncnorm_cdf(-3, 3), 'node-torque-law')
    c.sample((model, n, len(dirs)))


@section('together', 10, 400)
def together(c):
    """Agents are pushed independently of each other: sums over a crowd
    spread as sums of independent draws do."""
    r = c.rng
    model = r.choice(['circular', 'three_circle'])
    n, rounds = r.choice([40, 64, 150]), 8
    sim = MultiAgentSimulation()
    sim.agents = make_agents(c, model, n)
    arr = sim.agents.array
    flags(r, arr)
    arr['std_rand_force'] = c.np.uniform(.1, 2, n)
    if model == 'three_circle':
        arr['std_rand_torque'] = c.np.uniform(.1, 2, n)
    logic = c.call('construct', Fluctuation, sim)
    # second moments of one component (radius truncated at three, any
    # direction) and of a torque (truncated at three on both sides)
    q = 1 - 6 * math.exp(-4.5) / math.sqrt(2 * math.pi) / math.erf(
        3 / math.sqrt(2))
    chi, chit, raw, rawt = 0.0, 0.0, 0.0, 0.0
    for _ in range(rounds):
        arr['force'] = 0
        if model == 'three_circle':
            arr['torque'] = 0
        c.call('Fluctuation.update', logic.update)
        top = arr['mass'] * arr['std_rand_force']
        u = arr['force'] / top[:, None]
        chi += float((u.sum(axis=0) ** 2).sum()) / (n * q / 2)
        raw += float((arr['force'].sum(axis=0) ** 2).sum()) / (
            float((top ** 2).sum()) * q / 2)
        if model == 'three_circle':
            top = arr['inertia_rot'] * arr['std_rand_torque']
            chit += float((arr['torque'] / top).sum()) ** 2 / (n * q)
            rawt += float(arr['torque'].sum()) ** 2 / (
                float((top ** 2).sum()) * q)
    c.check(.5 < min(chi, raw) and max(chi, raw) < 80, 'together:forces',
            chi, raw, 'for', 2 * rounds)
    if model == 'three_circle':
        c.check(.005 < min(chit, rawt) and max(chit, rawt) < 70,
                'together:torques', chit, rawt, 'for', rounds)
    c.nontrivial(arr.tobytes())
    c.state('together', model, n)
