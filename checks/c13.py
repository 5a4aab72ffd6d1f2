"""Agents constructed from the shipped and from generated body types, at
construction or by later assignment, with any subset of measures given
explicitly: bounds, ratios and inertia are checked against the type's row and
the formula; drawn values are accumulated and tested against the truncated
normal law (Kolmogorov-Smirnov, chance of a false alarm below 1e-8 per test).
Non-trivial: an agent with at least one drawn measure."""
import math

import numpy as np
from configobj import ConfigObj
from traitlets import TraitError

from crowddynamics.config import BODY_TYPES_CFG
from crowddynamics.simulation.agents import Capsule, Circular, ThreeCircle
from harness import section
import stats

RULE = __doc__
CLASSES = [Circular, ThreeCircle, Capsule]
DRAWN = ('radius', 'target_velocity', 'mass')
RATIOS = (('r_t', 'ratio_rt'), ('r_s', 'ratio_rs'), ('r_ts', 'ratio_ts'))
SHIPPED = {k: {a: float(b) for a, b in v.items()}
           for k, v in ConfigObj(infile=BODY_TYPES_CFG).items()}


def make_types(c):
    """A ConfigObj of generated types (values already converted)."""
    r = c.rng
    conf = ConfigObj()
    for k in range(r.choice([1, 2, 4])):
        row = {}
        keys = [('ratio_rt', None), ('ratio_rs', None), ('ratio_ts', None)]
        for n, _ in keys:
            row[n] = r.choice([1.0, r.uniform(.01, 1)])
        for n, top in (('radius', 2), ('target_velocity', 5), ('mass', 200)):
            mean = r.uniform(.01, top)
            row[n + '_mean'] = mean
            row[n + '_scale'] = mean * r.choice([1e-9, .01, .2, .99])
        items = list(row.items())
        r.shuffle(items)
        conf['type%d' % k] = dict(items)
    return conf


def inertia(mass, radius):
    return 4 * math.pi * (mass / 80.0) * (radius / 0.27) ** 2


def judge(c, agent, row, given):
    for n in DRAWN:
        v = getattr(agent, n)
        if n in given:
            c.equal(v, given[n], 'given-measure', n)
        else:
            lo = row[n + '_mean'] - row[n + '_scale']
            hi = row[n + '_mean'] + row[n + '_scale']
            eps = 1e-12 * hi
            c.check(lo - eps <= v <= hi + eps, 'truncation-bounds', n, v, lo,
                    hi)
    for n, ratio in RATIOS:
        c.close(getattr(agent, n), row[ratio] * agent.radius, 'ratio',
                rtol=1e-12, detail=n)
    if 'inertia_rot' in given:
        c.equal(agent.inertia_rot, given['inertia_rot'], 'given-measure',
                'inertia_rot')
    else:
        c.close(agent.inertia_rot, inertia(agent.mass, agent.radius),
                'inertia', rtol=1e-9, atol=0)


@section('consistency', 500, 25000)
def consistency(c):
    r = c.rng
    cls = r.choice(CLASSES)
    kw, given = {}, {}
    if r.random() < .6:
        rows = SHIPPED
    else:
        kw['body_types'] = make_types(c)
        rows = {k: dict(v) for k, v in kw['body_types'].items()}
    name = r.choice(sorted(rows))
    row = rows[name]
    for n in DRAWN + ('inertia_rot',):
        if r.random() < .25:
            given[n] = 10 ** r.uniform(-3, 3)
    if r.random() < .5:
        given['target_angular_velocity'] = r.uniform(0, 9)
    items = list(kw.items()) + list(given.items()) + [('body_type', name)]
    r.shuffle(items)
    c.note(cls.__name__, items)
    if r.random() < .6:
        agent = c.call('construct', cls, **dict(items))
    else:
        agent = c.call('construct', cls, **kw)
        for n, v in items:
            if n not in kw:
                # explicit measures first: a drawn one is never overwritten
                if n != 'body_type':
                    c.call('set', setattr, agent, n, v)
        if r.random() < .5 and not ('mass' in given and 'radius' in given):
            c.equal(agent.inertia_rot, given.get('inertia_rot', 0.0),
                    'inertia-without-measures')
        c.call('set', setattr, agent, 'body_type', name)
    judge(c, agent, row, given)
    if rows is SHIPPED:
        # the shoulders of the shipped types reach out to the radius
        c.close(agent.r_ts + agent.r_s, agent.radius, 'width', rtol=1e-3,
                detail=name)
        c.check(agent.r_s < agent.r_t < agent.radius, 'proportions', name)
    if 'target_angular_velocity' in given:
        c.equal(agent.target_angular_velocity,
                given['target_angular_velocity'], 'given-measure', 'angular')
    # only once
    measures = {n: getattr(agent, n) for n in
                DRAWN + ('r_t', 'r_s', 'r_ts', 'inertia_rot')}
    other = [k for k in rows if k != name]
    if other:
        c.raises(TraitError, 'set-twice', setattr, agent, 'body_type',
                 r.choice(other))
        for n, v in measures.items():
            c.equal(getattr(agent, n), v, 'second-type-changed-measures', n)
    if r.random() < .5:
        # measures keep following the radius
        agent.radius = new = r.uniform(.01, 3)
        c.equal(agent.radius, new, 'radius')
        for n, ratio in RATIOS:
            c.close(getattr(agent, n), row[ratio] * new, 'ratio-follows',
                    rtol=1e-12, detail=n)
    if r.random() < .5:
        # later assignments leave the other measures alone
        n = r.choice(DRAWN)
        fixed = {m: getattr(agent, m) for m in DRAWN if m != n}
        if 'inertia_rot' in given:
            fixed['inertia_rot'] = given['inertia_rot']
        new = getattr(agent, n) * r.uniform(.5, 2)
        c.call('set', setattr, agent, n, new)
        c.equal(getattr(agent, n), new, 'assigned-measure', n)
        for m, v in fixed.items():
            c.equal(getattr(agent, m), v, 'assignment-changed-measure', n, m)
        c.count('later assignments')
    if any(n not in given for n in DRAWN):
        c.nontrivial(cls.__name__, name, sorted(given.items()),
                     agent.radius, agent.mass)
    c.state('given', cls.__name__, name, sorted(given))
    c.sample((cls.__name__, name, given, measures))


def cdf(z):
    """Normal truncated to +-3 standard deviations."""
    phi = lambda x: .5 * (1 + math.erf(x / math.sqrt(2)))
    return (phi(z) - phi(-3)) / (phi(3) - phi(-3))


@section('law', 8, 120, min_nontrivial=5)
def law(c):
    """Draws of one type against the truncated normal law."""
    r = c.rng
    n = 1500 if c.tier == 'quick' else 4000
    cls = r.choice(CLASSES)
    conf = make_types(c) if r.random() < .4 else None
    if conf is None:
        rows = SHIPPED
    else:
        rows = {k: dict(v) for k, v in conf.items()}
    name = r.choice(sorted(rows))
    row = rows[name]
    if conf is None:
        conf = ConfigObj()
        conf.update({k: dict(v) for k, v in rows.items()})
    draws = {k: [] for k in DRAWN}
    for k in range(n):
        a = c.call('construct', cls, body_types=conf, body_type=name)
        judge(c, a, row, {})
        for m in DRAWN:
            draws[m].append((getattr(a, m) - row[m + '_mean']) /
                            (row[m + '_scale'] / 3))
    for m in DRAWN:
        if row[m + '_scale'] < 1e-6 * row[m + '_mean']:
            continue
        z = np.sort(draws[m])
        c.check(len(set(draws[m])) > .99 * n, 'values-do-not-vary', m)
        f = np.array([cdf(x) for x in z])
        d = max(np.max(np.arange(1, n + 1) / n - f),
                np.max(f - np.arange(n) / n))
        c.check(d * math.sqrt(n) < 3.3, 'law', m, 'of', name, 'KS', d, 'n', n)
        high = int(np.sum(z > 0))
        c.check(abs(high - n / 2) < 3.1 * math.sqrt(n), 'one-sided', m, high,
                n)
    pool = [z for m in DRAWN for z in draws[m]
            if row[m + '_scale'] >= 1e-6 * row[m + '_mean']]
    c.check(stats.ks(pool, cdf) < stats.LAMBDA, 'law', 'all measures of',
            name, len(pool))
    # measures are drawn independently of each other
    for a, b in (('radius', 'mass'), ('mass', 'target_velocity'),
                 ('radius', 'target_velocity')):
        if any(row[m + '_scale'] < 1e-6 * row[m + '_mean'] for m in (a, b)):
            continue
        rho = float(np.corrcoef(draws[a], draws[b])[0, 1])
        c.check(abs(rho) * math.sqrt(n) < 6.5, 'dependent-draws', a, b, rho)
    c.count('draws', 3 * n)
    c.nontrivial(name, cls.__name__, draws['mass'][:5])
    c.sample((name, cls.__name__, n))
