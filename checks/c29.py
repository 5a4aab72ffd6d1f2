"""Random crowds with walls, headings (towards, away, exactly aligned, standing)
and several leaders and followers, driven through histories in which leaders
move behind walls, out of sight, turn around and change their targets. Monitors
are independent plain computations of headings, visibility and nearest
neighbours, of each follower's direction and source of target, and byte
comparisons of everybody else. Non-trivial: crowds in which walls hide somebody,
histories in which at least two sources of a target occur."""
import math

import numpy as np
from cell_lists import add_to_cells, neighboring_cells
from shapely.geometry import LineString, MultiLineString

from crowddynamics.core.steering import collective_motion as M
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.agents import NO_LEADER, NO_TARGET
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import LeaderFollower, \
    LeaderFollowerWithHerding
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from exact import cross, dist, sub
from harness import section
from sims import diff_fields, make_agents, snapshot

RULE = __doc__
EPS = 1e-7
LEADERS = 20.0   # sight of followers of leaders, besides herding


def unit(v):
    l = math.hypot(*v)
    return (v[0] / l, v[1] / l) if l > 0 else (0.0, 0.0)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def away(x1, x2, v1, v2, phi):
    """Whether (2 heads away from 1, 1 heads away from 2), None if too close
    to the limits."""
    if math.hypot(*v1) == 0 or math.hypot(*v2) == 0:
        return False, False
    e = unit(sub(x2, x1))
    ci, cj = dot(e, unit(v1)), -dot(e, unit(v2))
    if abs(ci - math.cos(phi)) < EPS or abs(cj - math.cos(phi)) < EPS:
        return None
    return not cj > math.cos(phi), not ci > math.cos(phi)


def blocked(p, q, walls):
    """None if a wall only touches the line of sight, or almost does."""
    out = False
    for a, b in walls:
        s = [cross(sub(q, p), sub(a, p)), cross(sub(q, p), sub(b, p)),
             cross(sub(b, a), sub(p, a)), cross(sub(b, a), sub(q, a))]
        if min(abs(v) for v in s) < 1e-9:
            return None
        if (s[0] > 0) != (s[1] > 0) and (s[2] > 0) != (s[3] > 0):
            out = True
    return out


class Unclear(Exception):
    pass


def sees(p, q, walls):
    b = blocked(p, q, walls)
    if b is None:
        raise Unclear
    return not b


def linear(walls):
    return np.array([(a, b) for a, b in walls], dtype=obstacle_type_linear)


def pts(a):
    return [(float(x), float(y)) for x, y in a]


@section('heading', quick=3000, thorough=100000)
def heading(c):
    r = c.rng
    x1 = (r.uniform(-5, 5), r.uniform(-5, 5))
    a = r.choice([0.0, math.pi / 2, math.pi, r.uniform(-3.2, 3.2)])
    l = r.uniform(.01, 9)
    x2 = (x1[0] + l * math.cos(a), x1[1] + l * math.sin(a))
    if r.random() < .3:
        x1, x2 = (0.0, 0.0), r.choice([(1.0, 0.0), (3.0, 4.0), (0.0, -2.0)])
    phi = r.choice([None, .45 * math.pi, r.uniform(.01, math.pi)])
    e = sub(x2, x1)

    def velocity():
        k = r.randrange(6)
        s = r.choice([1.0, r.uniform(.01, 4)])
        if k == 0:
            return (s * e[0], s * e[1])
        if k == 1:
            return (-s * e[0], -s * e[1])
        if k == 2 and r.random() < .4:
            return (0.0, 0.0)
        b = r.uniform(-math.pi, math.pi)
        return (s * math.cos(b), s * math.sin(b))
    v1, v2 = velocity(), velocity()
    want = away(x1, x2, v1, v2, math.pi / 2 if phi is None else phi)
    if want is None:
        c.skip('at the limit')
    A = [np.array(v) for v in (x1, x2, v1, v2)]
    kw = () if phi is None else (phi,)
    got = tuple(c.call('heading', M.herding_relationship, *A, *kw))
    detail = ('x', x1, x2, 'v', v1, v2, 'phi', phi)
    c.equal(tuple(map(bool, got)), want, 'heading:relation', *detail)
    swap = tuple(c.call('heading', M.herding_relationship, A[1], A[0], A[3],
                        A[2], *kw))
    c.equal(tuple(map(bool, swap)), want[::-1], 'heading:symmetry', *detail)
    aligned = abs(abs(dot(unit(e), unit(v1))) - 1) < 1e-12
    c.state('relation', want, aligned)
    c.nontrivial(x2, v1, v2, phi)


def crowd(c, n, box):
    r = c.rng
    p = [(r.uniform(-box, box), r.uniform(-box, box)) for _ in range(n)]
    if r.random() < .3:
        o = (r.uniform(-50, 50), r.uniform(-50, 50))
        p = [(x + o[0], y + o[1]) for x, y in p]
    lo = [min(q[k] for q in p) for k in (0, 1)]
    hi = [max(q[k] for q in p) for k in (0, 1)]
    walls = []
    for _ in range(r.choice([0, 1, 2, 4])):
        a = tuple(r.uniform(lo[k] - .1, hi[k] + .1) for k in (0, 1))
        b = (a[0] + r.uniform(-box, box), a[1] + r.uniform(-box, box))
        walls.append((a, b))
    return p, walls


@section('neighbours', quick=500, thorough=15000)
def neighbours(c):
    r = c.rng
    n = r.choice([1, 2, 5, 12, 30]) if r.random() < .97 else 90
    p, walls = crowd(c, n, r.choice([1.0, 3.0, 8.0]))
    sight = r.choice([.5, 1.0, 3.0, r.uniform(.3, 10)])
    k = r.choice([0, 1, 2, 5, 8])
    pos = np.array(p)
    pi, count, offset, shape = add_to_cells(pos, sight)
    got = c.call('neighbours', M.find_nearest_neighbors, pos, sight, k,
                 np.arange(len(count)), neighboring_cells(shape), pi, count,
                 offset, linear(walls))
    c.equal(np.shape(got), (n, k), 'neighbours:shape')
    hidden = 0
    for i in range(n):
        try:
            near = []
            for j in range(n):
                d = dist(p[i], p[j])
                if j != i and d < sight + 1e-9:
                    if abs(d - sight) < 1e-9:
                        raise Unclear
                    if sees(p[i], p[j], walls):
                        near.append((d, j))
                    else:
                        hidden += 1
        except Unclear:
            c.count('unclear')
            continue
        near.sort()
        want = sorted(j for _, j in near[:k])
        have = [int(j) for j in got[i]]
        own = sorted(j for j in have if j != M.MISSING_NEIGHBOR)
        c.equal(own, want, 'neighbours:nearest', 'agent', i, 'sight', sight,
                'visible', near, 'walls', walls)
        c.equal(have.count(M.MISSING_NEIGHBOR), k - len(want),
                'neighbours:missing')
        c.count('neighbours', len(want))
    c.count('hidden', hidden)
    if n > 1:
        c.nontrivial(n, k, len(walls), hidden, p[0])


def herd_direction(i, p, v, near, weight, phi):
    """Direction of agent i towards and along its neighbours, or None."""
    use = []
    for j in near:
        w = away(p[i], p[j], v[i], v[j], phi)
        if w is None:
            raise Unclear
        if w[0]:
            use.append(j)
    if not use:
        return None
    m = [sum(p[j][k] for j in use) / len(use) for k in (0, 1)]
    u = [sum(v[j][k] for j in use) for k in (0, 1)]
    if math.hypot(*sub(m, p[i])) < 1e-6 or math.hypot(*u) < 1e-6:
        raise Unclear
    a, b = unit(sub(m, p[i])), unit(u)
    s = (weight * a[0] + (1 - weight) * b[0], weight * a[1] +
         (1 - weight) * b[1])
    if math.hypot(*s) < 1e-6:
        raise Unclear
    return unit(s)


@section('herd', quick=400, thorough=10000)
def herd(c):
    r = c.rng
    n = r.choice([2, 4, 10, 10, 25])
    p, _ = crowd(c, n, 3.0)
    v = [(0.0, 0.0) if r.random() < .15 else
         (r.uniform(-2, 2), r.uniform(-2, 2)) for _ in range(n)]
    k = r.choice([1, 3]) if n < 25 else r.choice([3, 15, 24])
    near = [r.sample([j for j in range(n) if j != i], min(k, n - 1))
            for i in range(n)]
    near = [q if r.random() < .7 else q[:-1] for q in near]
    table = np.full((n, k), M.MISSING_NEIGHBOR, dtype=np.int64)
    for i, q in enumerate(near):
        where = r.sample(range(k), len(q))
        for a, j in zip(where, q):
            table[i, a] = j
    is_h = np.array([r.random() < .8 for _ in range(n)])
    weight = r.choice([.15, .5, r.uniform(0, 1)])
    phi = r.choice([.45 * math.pi, r.uniform(.2, 3)])
    P, V = np.array(p), np.array(v)
    keep = [x.copy() for x in (is_h, P, V, table)]
    d, has = c.call('herd', M.herding_interaction, is_h, P, V, table, weight,
                    phi)
    for x, y in zip(keep, (is_h, P, V, table)):
        c.check(np.array_equal(x, y), 'herd:inputs')
    found = 0
    for i in range(n):
        try:
            want = herd_direction(i, p, v, near[i], weight, phi) \
                if is_h[i] else None
        except Unclear:
            c.count('unclear')
            continue
        c.equal(bool(has[i]), want is not None, 'herd:has', 'agent', i)
        c.close(d[i], want or (0.0, 0.0), 'herd:direction', rtol=1e-6,
                atol=1e-8, detail='agent %d' % i)
        found += want is not None
    c.count('herding', found)
    if found:
        c.nontrivial(n, k, found, p[0])


def leaders_pass(a, walls, sight, phi=.45 * math.pi, w=.40):
    """One pass over the followers of a record array (changed in place): each
    goes through the leaders from near to far and takes up the first that it
    sees heading away, or, if that comes first, the target of its own leader
    when a wall hides that one. Otherwise it has the target of the leader that
    it last saw. Returns directions and sources."""
    p, v = pts(a['position']), pts(a['velocity'])
    out = [(0.0, 0.0)] * len(a)
    src = [None] * len(a)
    lead = [j for j in range(len(a)) if a[j]['is_leader']]
    for i in range(len(a)):
        if not a[i]['is_follower']:
            continue
        order = sorted((dist(p[i], p[j]), j) for j in lead)
        for d, j in order:
            if abs(d - sight) < 1e-9:
                raise Unclear
            if d > sight:
                break
            if not sees(p[i], p[j], walls):
                if a[i]['index_leader'] == j:
                    a[i]['target'] = a[j]['target']
                    src[i] = 'hidden leader'
                    break
                continue
            h = away(p[i], p[j], v[i], v[j], phi)
            if h is None:
                raise Unclear
            if h[0]:
                x, y = unit(sub(p[j], p[i])), unit(v[j])
                s = (w * x[0] + (1 - w) * y[0], w * x[1] + (1 - w) * y[1])
                if math.hypot(*s) < 1e-6:
                    raise Unclear
                out[i] = unit(s)
                a[i]['index_leader'] = j
                a[i]['target'] = NO_TARGET
                src[i] = 'visible leader'
                break
        if src[i] is None and a[i]['index_leader'] != NO_LEADER:
            a[i]['target'] = a[int(a[i]['index_leader'])]['target']
            src[i] = 'last leader'
    return out, src


def familiar(a, src):
    for i in range(len(a)):
        if a[i]['is_follower'] and src[i] is None:
            a[i]['target'] = a[i]['familiar_exit']
            src[i] = 'familiar exit'


def herding_pass(a, walls, sight, size, phi=.45 * math.pi):
    p, v = pts(a['position']), pts(a['velocity'])
    n = len(a)
    herd_, herds = [(0.0, 0.0)] * n, [False] * n
    for i in range(n):
        if not a[i]['is_follower']:
            continue
        near = []
        for j in range(n):
            d = dist(p[i], p[j])
            if abs(d - sight) < 1e-9:
                raise Unclear
            if j != i and d < sight and sees(p[i], p[j], walls):
                near.append((d, j))
        near = [j for _, j in sorted(near)[:size]]
        q = herd_direction(i, p, v, near, .15, phi)
        if q is not None:
            herd_[i], herds[i] = q, True
    for i in range(n):
        if herds[i]:
            a[i]['target'] = NO_TARGET
    lead, src = leaders_pass(a, walls, LEADERS, phi)
    out = []
    for i in range(n):
        if herds[i] and src[i] is None:
            src[i] = 'herd'
        x = (.65 * lead[i][0] + .35 * herd_[i][0],
             .65 * lead[i][1] + .35 * herd_[i][1])
        if 0 < math.hypot(*x) < 1e-6:
            raise Unclear
        out.append(unit(x))
    familiar(a, src)
    return out, src


def compare(c, before, want, after, dirs, src, mech):
    """Followers as wanted, others untouched."""
    for i in range(len(before)):
        b, w, g = before[i], want[i], after[i]
        if not b['is_follower']:
            c.check(b.tobytes() == g.tobytes(), mech + 'not-follower',
                    'agent', i, b, g)
            continue
        c.equal(int(g['target']), int(w['target']), mech + 'target', 'agent',
                i, 'by', src[i], 'before', int(b['target']))
        c.equal(int(g['index_leader']), int(w['index_leader']),
                mech + 'leader', 'agent', i, 'by', src[i])
        c.close(g['target_direction'], dirs[i], mech + 'direction', rtol=1e-6,
                atol=1e-8, detail='agent %d by %s' % (i, src[i]))
    may = {'target', 'index_leader', 'target_direction'}
    c.check(set(diff_fields(before, after)) <= may, mech + 'other-attribute',
            diff_fields(before, after))


def drive(c, run, oracle, mech, walls, arr, steps, rebuild=None, wide=()):
    """Followers and leaders that move around; some have left or arrived."""
    r = c.rng
    box = r.choice((6.0, 6.0, 14.0) + tuple(wide))
    n = len(arr)
    leaders = set(r.sample(range(n), r.choice([0, 1, 1, 2, 3]) if n > 3 else
                           r.choice([0, 1])))
    for i in range(n):
        g = arr[i]
        g['is_leader'] = i in leaders
        g['is_follower'] = i not in leaders and r.random() < .75
        g['active'] = r.random() < .8
        g['target_reached'] = r.random() < .2
        g['familiar_exit'] = r.choice([NO_TARGET, 0, 1, 2])
        g['target'] = r.choice([NO_TARGET, 0, 1, 2])
        g['index_leader'] = NO_LEADER
        g['position'] = (r.uniform(-box, box), r.uniform(-box, box))
        g['velocity'] = (r.uniform(-2, 2), r.uniform(-2, 2))
        g['target_direction'] = (.6, .8)
    seen = set()
    for _ in range(steps):
        for i in range(n):
            g = arr[i]
            k = r.randrange(6)
            if k == 0:
                g['velocity'] = (r.uniform(-2, 2), r.uniform(-2, 2))
            elif k == 1:
                g['position'] = (r.uniform(-box, box), r.uniform(-box, box))
            elif k == 2 and r.random() < .2:
                g['velocity'] = (0.0, 0.0)
            elif k == 3 and g['is_leader']:
                g['target'] = r.choice([NO_TARGET, 0, 1, 2])
            elif k == 4 and g['is_leader'] and r.random() < .4:
                g['position'] = (r.uniform(12, 44), r.uniform(-9, 9))
            elif k == 5 and r.random() < .3:
                j = r.randrange(n)
                if j != i:   # straight at another one
                    g['velocity'] = unit(sub(tuple(arr[j]['position']),
                                             tuple(g['position'])))
        if rebuild and r.random() < .15:     # walls are moved while running
            walls[:] = make_walls(c)
            rebuild()
            c.count('walls moved')
        before = snapshot(arr)
        want = snapshot(arr)
        try:
            dirs, src = oracle(want)
        except Unclear:
            c.count('unclear')
            return seen
        got = run()
        if got is not None:  # the plain function returns directions
            for i in range(n):
                if arr[i]['is_follower']:
                    arr[i]['target_direction'] = got[i]
        c.note('sources', src)
        compare(c, before, want, arr, dirs, src, mech)
        for s in src:
            if s:
                seen.add(s)
                c.count('by ' + s)
    return seen


def make_walls(c):
    r = c.rng
    walls = []
    for _ in range(r.choice([0, 1, 2, 3])):
        a = (r.uniform(-6, 6), r.uniform(-6, 6))
        walls.append((a, (a[0] + r.uniform(-7, 7), a[1] + r.uniform(-7, 7))))
    return walls


def put_walls(sim, walls):
    sim.field.obstacles = None if not walls else \
        MultiLineString([list(w) for w in walls]) if len(walls) > 1 else \
        LineString(walls[0])


def simulation(c, walls, n):
    sim = MultiAgentSimulation()
    sim.field = Field(targets=[LineString([(k, 9), (k + .5, 9)])
                               for k in range(3)])
    put_walls(sim, walls)
    sim.agents = make_agents(c, c.rng.choice(['circular', 'three_circle']), n)
    return sim


@section('leader', quick=300, thorough=8000)
def leader(c):
    r = c.rng
    walls = make_walls(c)
    sim = simulation(c, walls, r.choice([2, 4, 9]))
    arr = sim.agents.array
    sight = r.choice([20.0, 5.0, r.uniform(1, 30), r.uniform(30, 90)])
    if r.random() < .5:
        node = c.call('construct', LeaderFollower, sim, sight=sight)
        run = lambda: c.call('leader', node.update)
    else:
        run = lambda: c.call('leader', M.leader_follower_interaction, arr,
                             linear(walls), sight)

    def oracle(a):
        d, src = leaders_pass(a, walls, sight)
        familiar(a, src)
        return d, src
    seen = drive(c, run, oracle, 'leader:', walls, arr, 6,
                 lambda: put_walls(sim, walls),
                 [sight] * 2 if sight > 30 else [])
    if len(seen) > 1:
        c.nontrivial(len(arr), sorted(seen), len(walls), sight)


@section('herding', quick=300, thorough=8000)
def herding(c):
    r = c.rng
    walls = make_walls(c)
    sim = simulation(c, walls, r.choice([1, 2, 4, 9, 14]))
    arr = sim.agents.array
    sight = r.choice([10.0, 3.0, r.uniform(1, 15), r.uniform(15, 60)])
    size = r.choice([5, 1, 2, 0, 12])
    if r.random() < .5:
        node = c.call('construct', LeaderFollowerWithHerding, sim,
                      sight_follower=sight, size_nearest_other=size)
        run = lambda: c.call('herding', node.update)
    else:
        run = lambda: c.call(
            'herding', M.leader_follower_with_herding_interaction, arr,
            linear(walls), sight, size)
    seen = drive(c, run, lambda a: herding_pass(a, walls, sight, size),
                 'herding:', walls, arr, 5, lambda: put_walls(sim, walls),
                 [1.2 * sight] * 2 if sight > 20 else [])
    if len(seen) > 1:
        c.nontrivial(len(arr), sorted(seen), len(walls), sight, size)
