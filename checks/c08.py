"""Histories of insertions and queries against an independent model that keeps
every (cell, item) pair in a flat list and scans it. Coordinates are dyadic
(exact cells, boundaries included) or arbitrary floats kept off boundaries. A
case is non-trivial if a query returned some but not all items."""
import math
from array import array
from collections import Counter
from fractions import Fraction

import numpy as np
from sortedcontainers import SortedList

from crowddynamics.core.block_list import MutableBlockList
from harness import section

RULE = __doc__
LISTS = [('list', list), ('SortedList', SortedList),
         ('array', lambda: array('l'))]


def cell_of(point, size):
    s = Fraction(size)
    return tuple(math.floor(Fraction(x) / s) for x in point)


def make_coord(c, kind, size, span):
    r = c.rng
    if kind == 'dyadic':
        return r.randint(-span * 8, span * 8) * size / 8.0 \
            if r.random() < .7 else r.randint(-span, span) * size
    if kind == 'int':
        return r.randint(-span * 3, span * 3)
    if r.random() < .2:             # close to a boundary, but clearly off it
        far = r.choice([-1, 1]) * 10 ** r.uniform(-8, -3) * \
            max(1.0, span / 1e3)
        return (r.randint(-span, span) + far) * size
    while True:
        x = r.uniform(-span, span) * size
        f = x / size
        if abs(f - round(f)) > 1e-6:
            return x


def as_key(c, pt):
    k = c.rng.randrange(4)
    if k == 0:
        return tuple(pt)
    if k == 1:
        return list(pt)
    if k == 2:
        return np.array(pt)
    return tuple(np.array(pt))


@section('history', 400, 24000)
def history(c):
    r = c.rng
    kind = r.choice(['dyadic', 'dyadic', 'float', 'int'])
    dim = r.choice([1, 2, 2, 2, 2, 3, 4])
    span = r.choice([1, 2, 4, 30]) if dim < 3 else r.choice([1, 2])
    if r.random() < .05:
        span = 10 ** 6
    if kind == 'dyadic':
        size = r.choice([1, 2, 3]) * 2.0 ** r.randint(-3, 3)
    elif kind == 'int':
        size = r.choice([1, 2, 3, 5, 7])
    else:
        size = r.choice([0.6, 0.27, 0.1, 1.0, 3.6, r.uniform(.01, 10)])
    lname, factory = r.choice(LISTS)
    bl = c.call('construct', MutableBlockList, size, factory) \
        if r.random() < .5 or lname != 'list' else \
        c.call('construct', MutableBlockList, cell_size=size)
    other = c.call('construct', MutableBlockList, size, factory)
    model = []  # (cell, item)
    points = []
    partial = False
    n_ops = r.choice([20, 60, 150])
    maxrad = {1: 5, 2: 4, 3: 2, 4: 1}[dim]
    for k in range(n_ops):
        op = r.random()
        if points and r.random() < .35:
            pt = list(r.choice(points))
            if r.random() < .4:
                j = r.randrange(dim)
                pt[j] = pt[j] + r.choice([-1, 1]) * size
                if kind == 'float' and abs(pt[j] / size -
                                           round(pt[j] / size)) < 1e-9 * \
                        (1 + abs(pt[j] / size)):
                    continue
        else:
            pt = [make_coord(c, kind, size, span) for _ in range(dim)]
        if kind == 'dyadic' and r.random() < .15:
            pt[r.randrange(dim)] = r.choice([0.0, -0.0, size, -size])
        cell = cell_of(pt, size)
        key = as_key(c, pt)
        if op < .5:
            # SortedList.append only takes values in ascending order
            item = k if r.random() < .8 or lname == 'SortedList' else \
                r.randint(0, 5)
            c.note('insert', pt, item)
            c.call('insert', bl.__setitem__, key, item)
            model.append((cell, item))
            points.append(tuple(pt))
        elif op < .7:
            c.note('get', pt)
            got = c.call('get', bl.__getitem__, key)
            want = Counter(i for q, i in model if q == cell)
            c.equal(Counter(got), want, 'own-cell', 'point', pt, 'size', size)
            c.count('get_queries')
        else:
            rad = r.randint(0, maxrad)
            if rad == 1 and r.random() < .5:
                c.note('nearest', pt)
                got = c.call('nearest', bl.nearest, key)
            else:
                c.note('nearest', pt, rad)
                got = c.call('nearest', bl.nearest, key, rad) \
                    if r.random() < .5 else \
                    c.call('nearest', bl.nearest, key, radius=rad)
            want = Counter(i for q, i in model if all(
                abs(a - b) <= rad for a, b in zip(q, cell)))
            c.equal(Counter(got), want, 'neighbourhood', 'point', pt, 'size',
                    size, 'radius', rad)
            c.count('nearest_queries')
            c.state('neighbour_result', dim, rad, len(want), len(model))
            if 0 < sum(want.values()) < len(model):
                partial = True
            if r.random() < .5 and len(got):
                # the answer is the caller's: changing it changes nothing
                c.note('caller clears its answer')
                if lname == 'array':
                    del got[:]
                else:
                    got.clear()
    # everything is still there at the end, and the other list is empty
    for cell in {q for q, _ in model}:
        pt = next(p for p in points if cell_of(p, size) == cell)
        got = c.call('get', bl.__getitem__, pt)
        c.equal(Counter(got), Counter(i for q, i in model if q == cell),
                'own-cell-final', 'point', pt)
        c.equal(len(c.call('get', other.__getitem__, pt)), 0,
                'lists-not-separate')
    if partial:
        c.nontrivial(kind, dim, size, tuple(points))
    c.sample(dict(kind=kind, dim=dim, cell_size=size, list=lname,
                  first_points=points[:3], items=len(model)))


@section('completeness', 120, 6000)
def completeness(c):
    """Brute force: no item closer than radius * cell size is missed."""
    r = c.rng
    dim = r.choice([1, 2, 2, 3])
    size = r.uniform(.05, 5)
    bl = c.call('construct', MutableBlockList, size)
    pts = c.np.uniform(-3 * size, 3 * size, (r.choice([30, 120]), dim)) + \
        c.np.choice([0, -40 * size, 17 * size])
    for k, p in enumerate(pts):
        c.call('insert', bl.__setitem__, p, k)
    missed_possible = 0
    for _ in range(12):
        q = pts[r.randrange(len(pts))] + c.np.uniform(-size, size, dim)
        rad = r.choice([1, 1, 1, 2])
        got = c.call('nearest', bl.nearest, q, rad)
        c.check(len(set(got)) == len(got), 'duplicates', list(got))
        d = np.sqrt(((pts - q) ** 2).sum(axis=1))
        near = set(np.nonzero(d < rad * size * (1 - 1e-9))[0].tolist())
        missed_possible += len(near)
        c.check(near <= set(got), 'missed-near-item', 'query', q, 'missing',
                sorted(near - set(got)))
        far = set(np.nonzero((np.abs(pts - q) > (rad + 1) * size *
                              (1 + 1e-9)).any(axis=1))[0].tolist())
        c.check(not (far & set(got)), 'far-item-returned', 'query', q,
                sorted(far & set(got)))
        c.count('near_items_checked', len(near))
    if missed_possible:
        c.nontrivial(size, dim, pts[0].tolist())
