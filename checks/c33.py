"""Random geometry (single, multi-part, nested collections), direction and
distance maps, fields with and without domain and obstacles, logic trees (shared
names, rendered from any node) and figures, drawn on a recording stand-in of the
plotting library. Monitors compare every recorded glyph with the coordinates
that were given, the ranges with the extent of the data, the calls for showing
and saving with what was asked for, and the nodes and edges of the written dot
file with the tree. Non-trivial: several parts or several kinds of glyphs."""
import math
import os
import re
from pathlib import Path

import bokeh.io
import numpy as np
from bokeh.plotting import Figure
from shapely.geometry import GeometryCollection, LinearRing, LineString, \
    Point, Polygon

from crowddynamics import visualizations as V
from crowddynamics.core.steering.quickest_path import meshgrid
from crowddynamics.simulation.base import LogicNodeBase
from crowddynamics.simulation.field import Field
from geoms import anygeom, coord, polygon, single
from harness import section
import scenes

RULE = __doc__


def flat(v):
    a = np.asarray(v, dtype=float)
    return [float(x) for x in a.ravel()]


def xy(glyph):
    name, args, kw = glyph
    names = ('x0', 'y0', 'x1', 'y1') if name == 'segment' else ('x', 'y')
    out = []
    for i, n in enumerate(names):
        out.append(flat(args[i] if i < len(args) else kw[n]))
    return out


def parts(geom):
    """(glyph, coordinates) of every part in order"""
    if isinstance(geom, Point):
        return [('circle', [(geom.x, geom.y)])]
    if isinstance(geom, LineString):
        return [('line', list(geom.coords))]
    if isinstance(geom, Polygon):
        return [('patch', list(geom.exterior.coords))]
    return [p for g in geom for p in parts(g)]


def same_glyphs(c, got, want, mech, kw=None):
    c.equal([g[0] for g in got], [w[0] for w in want], mech + ':kinds')
    for g, (name, pts) in zip(got, want):
        x, y = xy(g)
        have = list(zip(x, y))
        # the closing point of an area is optional
        if name == 'patch':
            ring = pts[:-1] if pts[0] == pts[-1] else pts
            have = have[:-1] if len(have) > 1 and have[0] == have[-1] else have
            c.equal(have, [tuple(p[:2]) for p in ring], mech + ':points')
        else:
            c.equal(have, [tuple(p[:2]) for p in pts], mech + ':points')
        for k, v in (kw or {}).items():
            c.equal(g[2].get(k), v, mech + ':options')
        c.count('glyphs')
        c.state('glyph', name)


@section('geometry', quick=800, thorough=40000)
def geometry(c):
    r = c.rng
    k = r.randrange(5)
    g = anygeom(c) if k < 3 else LinearRing(list(polygon(c).exterior.coords)) \
        if k == 3 else GeometryCollection([single(c), GeometryCollection(
            [single(c), single(c)]), anygeom(c)])
    if k < 2 and r.random() < .15:      # finely drawn
        n = r.choice([120, 400, 1500])
        ring = [(r.uniform(.9, 1) * math.cos(2 * math.pi * t / n),
                 r.uniform(.9, 1) * math.sin(2 * math.pi * t / n))
                for t in range(n)]
        g = LineString(ring) if k else Polygon(
            [(math.cos(2 * math.pi * t / n), math.sin(2 * math.pi * t / n))
             for t in range(n)])
        c.count('fine geometries')
    fig = Figure()
    kw = r.choice([{}, {'alpha': .5}, {'alpha': .1, 'color': 'green',
                                       'legend': 'spawn'}])
    if r.random() < .4:
        kw = {k: v for k, v in [
            ('line_dash', 'dashed'), ('line_width', 3), ('line_color', 'red'),
            ('alpha', .25), ('legend', 'x'), ('name', 'part'),
            ('line_alpha', 0), ('visible', False)] if r.random() < .5}
    c.note(g.wkt if k < 4 else 'nested')
    c.call('geometry', V.add_geom, fig, g, **kw)
    want = parts(g)
    same_glyphs(c, fig.glyphs, want, 'geometry', kw)
    if len(want) > 1:
        c.nontrivial(tuple(w[0] for w in want), want[0][1][0])
    bad = r.choice([3, 'POINT (0 0)', [(0, 0), (1, 1)], object()])
    fig = Figure()
    c.raises(TypeError, 'geometry:not-a-geometry', V.add_geom, fig, bad)
    c.check(not fig.glyphs, 'geometry:drawn')


@section('field', quick=300, thorough=12000)
def fields(c):
    r = c.rng
    kw = {}
    if r.random() < .8:
        kw['domain'] = polygon(c, holes=False)
    if r.random() < .8:
        kw['obstacles'] = anygeom(c)
    kw['targets'] = [anygeom(c) for _ in range(r.randint(0, 3))]
    kw['spawns'] = [polygon(c) for _ in range(r.randint(0, 3))]
    f = Field(**kw)
    fig = Figure()
    c.call('field', V.add_field, fig, f)
    geoms = [f.domain] + f.spawns + f.targets + [f.obstacles]
    want = [p for g in geoms if g is not None for p in parts(g)]
    key = lambda g: (g[0], str(g[1][0]), len(g[1]))
    got = [(g[0], list(zip(*xy(g)))) for g in fig.glyphs]
    got.sort(key=key)
    want = sorted([(n, [(float(p[0]), float(p[1])) for p in q])
                   for n, q in want], key=key)
    c.equal([g[0] for g in got], [w[0] for w in want], 'field:parts')
    for g, w in zip(got, want):
        c.check(set(g[1]) == set(w[1]), 'field:points', g, w)
    c.count('glyphs', len(want))
    c.state('given', 'domain' in kw, 'obstacles' in kw)
    if len(want) > 3:
        c.nontrivial(tuple(w[0] for w in want), want[0][1][0])


def grid(c):
    r = c.rng
    step = r.choice([.1, .5, 1.0, r.uniform(.05, 2)])
    w, h = r.uniform(3, 25) * step, r.uniform(3, 25) * step
    x, y = r.choice([(0.0, 0.0), (coord(c), coord(c))])
    return meshgrid(step, x, y, x + w, y + h), (x, y, x + w, y + h)


@section('directions', quick=300, thorough=12000)
def directions(c):
    r = c.rng
    m, _ = grid(c)
    X, Y = (np.array(v) for v in m.values)
    a = np.array([[r.uniform(-math.pi, math.pi) for _ in row] for row in X])
    U, W = np.cos(a), np.sin(a)
    hide = np.array([[r.random() < .1 for _ in row] for row in X])
    masked = r.random() < .5
    if masked:
        U, W = np.ma.MaskedArray(U, hide), np.ma.MaskedArray(W, hide)
    freq = r.choice([None, 1, 2, 3, 5])
    fig = Figure()
    kw = r.choice([{}, {'legend': 'direction_map'}, {'line_color': 'red'}])
    if freq is None:
        c.call('directions', V.add_direction_map, fig, m, (U, W), **kw)
        freq = 2
    else:
        c.call('directions', V.add_direction_map, fig, m, (U, W), freq, **kw)
    seg = [g for g in fig.glyphs if g[0] == 'segment']
    tri = [g for g in fig.glyphs if g[0] == 'triangle']
    c.check(len(seg) == 1 and len(tri) == 1, 'directions:glyphs')
    x0, y0, x1, y1 = xy(seg[0])
    tx, ty = xy(tri[0])
    ang = flat(tri[0][2]['angle'])
    for k, v in kw.items():
        c.equal(seg[0][2].get(k), v, 'directions:options')
    n = 0
    hidden = [q for q in range(len(x0))]
    rows, cols = range(0, X.shape[0], freq), range(0, X.shape[1], freq)
    c.equal(len(x0), len(rows) * len(cols), 'directions:number')
    l = .9 * freq * m.step
    for i in rows:
        for j in cols:
            c.close([x0[n], y0[n]], [X[i, j], Y[i, j]], 'directions:start',
                    rtol=1e-12, atol=1e-12)
            if not (masked and hide[i, j]):
                end = [X[i, j] + l * math.cos(a[i, j]),
                       Y[i, j] + l * math.sin(a[i, j])]
                c.close([x1[n], y1[n]], end, 'directions:end', rtol=1e-9,
                        atol=1e-9)
                c.close([tx[n], ty[n]], end, 'directions:head', rtol=1e-9,
                        atol=1e-9)
                # an upright triangle is turned into the direction
                t = ang[n] + math.pi / 2
                c.close([math.cos(t), math.sin(t)],
                        [math.cos(a[i, j]), math.sin(a[i, j])],
                        'directions:angle', rtol=1e-7, atol=1e-7)
            n += 1
    c.count('arrows', n)
    if n > 3:
        c.nontrivial(freq, n, masked, x0[0])


@section('distances', quick=200, thorough=8000)
def distances(c):
    r = c.rng
    m, (x0, y0, x1, y1) = grid(c)
    d = np.array([[r.uniform(-9, 1) for _ in row] for row in m.values[0]])
    fig = Figure()
    kw = r.choice([{}, {'legend': 'map'}, {'palette': 'Viridis256'}])
    c.call('distances', V.add_distance_map, fig, m, d, **kw)
    c.check([g[0] for g in fig.glyphs] == ['image'], 'distances:glyphs')
    _, args, opts = fig.glyphs[0]
    names = ('image', 'x', 'y', 'dw', 'dh')
    got = {n: args[i] if i < len(args) else opts[n]
           for i, n in enumerate(names)}
    c.check(len(got['image']) == 1 and np.array_equal(got['image'][0], d),
            'distances:values')
    one = lambda v: flat(v)[0]
    c.close([one(got['x']), one(got['y'])], [x0, y0], 'distances:corner',
            rtol=1e-9, atol=1e-9)
    # the extent is that of the grid, with or without the last cell
    for n, e in (('dw', x1 - x0), ('dh', y1 - y0)):
        c.check(e - 1e-9 <= one(got[n]) <= e + 2 * m.step + 1e-9,
                'distances:extent', n, one(got[n]), 'extent of the grid', e)
    for k, v in dict({'palette': 'Greys256'}, **kw).items():
        c.equal(opts.get(k), v, 'distances:options')
    c.count('images')
    c.nontrivial(x0, y0, x1, y1)


def check_ranges(c, fig, x, y, aspect, margin, mech):
    a, b = fig.x_range.start, fig.x_range.end
    d, e = fig.y_range.start, fig.y_range.end
    c.check(None not in (a, b, d, e), mech + ':set', a, b, d, e)
    w, h = b - a, e - d
    dx, dy = max(x) - min(x), max(y) - min(y)
    tol = 1e-9 * max(1, abs(a), abs(b), abs(d), abs(e))
    c.check(w > 0 and h > 0, mech + ':positive', w, h)
    c.close(w / h, aspect * fig.plot_width / float(fig.plot_height),
            mech + ':aspect', rtol=1e-7)
    c.check(a <= min(x) - margin * dx + tol and
            b >= max(x) + margin * dx - tol and
            d <= min(y) - margin * dy + tol and
            e >= max(y) + margin * dy - tol, mech + ':margin',
            (a, b, d, e), (min(x), max(x), min(y), max(y)), margin)
    c.close([a + b, d + e], [min(x) + max(x), min(y) + max(y)],
            mech + ':centre', rtol=1e-7, atol=2 * tol)
    # no wider than needed
    nx, ny = dx * (1 + 2 * margin) or 1.0, dy * (1 + 2 * margin) or 1.0
    c.check(w <= nx + tol or h <= ny + tol, mech + ':tight', w, h, nx, ny)


@section('aspect', quick=800, thorough=40000)
def aspects(c):
    r = c.rng
    n = r.choice([1, 2, 2, 5, 30, 30, 1500])
    s = 10 ** r.uniform(-3, 4)
    ox, oy = r.choice([(0, 0), (r.uniform(-50, 50), r.uniform(-50, 50))])
    x = [ox + s * r.uniform(-1, 1) for _ in range(n)]
    y = [oy + s * r.choice([1, 1, .01, 50]) * r.uniform(-1, 1)
         for _ in range(n)]
    if r.random() < .15:
        y = [y[0]] * n
    if r.random() < .15:
        x = [x[0]] * n
    if r.random() < .3:
        x, y = np.array(x), np.array(y)
    fig = Figure(plot_width=r.choice([600, 800, 300, r.randint(50, 2000)]),
                 plot_height=r.choice([600, 400, r.randint(50, 2000)]))
    kw = {}
    if r.random() < .6:
        kw['aspect'] = r.choice([1, 2, .5, r.uniform(.1, 8)])
    if r.random() < .6:
        kw['margin'] = r.choice([0, .1, .5, r.uniform(0, 2)])
    c.call('aspect', V.set_aspect, fig, x, y, **kw)
    check_ranges(c, fig, list(map(float, x)), list(map(float, y)),
                 kw.get('aspect', 1), kw.get('margin', .1), 'aspect')
    c.nontrivial(n, round(s, 3), tuple(sorted(kw.items())))


@section('figure', quick=400, thorough=10000)
def figures(c):
    r = c.rng
    base = r.choice(['figure', 'dir/fig', 'a.b', 'plot v1.2', '/tmp/x/y', '.f',
                     'name.htm', 'x.html.png', u'k\u00e4vely'])
    given = base + r.choice(['', '.html', '.html'])
    want = given if given.endswith('.html') and \
        os.path.basename(given) != '.html' else given + '.html'
    show, save = r.random() < .5, r.random() < .5
    opts = r.choice([{}, {'plot_width': 300}, {'plot_width': 90,
                                               'title': 'x'}])
    breaks = r.random() < .2
    del bokeh.io.CALLS[:]
    inside = []

    def use():
        with V.figure(given, show=show, save=save, **opts) as p:
            inside.append(p)
            c.check(not [k for k in bokeh.io.CALLS if k[0] != 'output_file'],
                    'figure:early')
            if breaks:
                raise KeyError('body')
            p.circle(1, 2)
    if breaks:
        c.raises(KeyError, 'figure:error', use)
    else:
        c.call('figure', use)
    p = inside[0]
    c.check(isinstance(p, Figure), 'figure:figure')
    c.equal(p.plot_width, opts.get('plot_width', 600), 'figure:options')
    files = [k[1] for k in bokeh.io.CALLS if k[0] == 'output_file']
    c.check(files and files[-1] == want, 'figure:file', files, want)
    for name, asked in (('show', show), ('save', save)):
        calls = [k for k in bokeh.io.CALLS if k[0] == name]
        c.check(len(calls) == int(asked and not breaks), 'figure:' + name,
                calls)
        c.check(all(k[1] is p for k in calls), 'figure:' + name + 'n')
    c.state('asked', show, save, breaks)
    c.nontrivial(given, show, save, breaks, len(opts))


@section('plot', quick=30, thorough=800, weight=2.0)
def plot(c):
    """Whole fields on a coarse grid."""
    r = c.rng
    s = scenes.make(c, cells=(10, 22), nobs=(0, 3), ntargets=r.randint(1, 3))
    obstacles = [scenes.to_shapely([o]) if isinstance(o, tuple) else
                 scenes.to_shapely(o) for o in s.obstacles]
    targets = [scenes.to_shapely([t]) if isinstance(t, tuple) else
               scenes.to_shapely(t) for t in s.targets]
    kw = {}
    if obstacles:
        kw['obstacles'] = obstacles[0] if len(obstacles) == 1 else \
            GeometryCollection(obstacles)
    f = Field(domain=s.domain, targets=targets, spawns=[
        Polygon(s.ring)] * r.randint(0, 2), **kw)
    del bokeh.io.CALLS[:]
    radius = r.choice([0.0, 2 * s.step])
    c.call('plot', V.plot_field, f, step=s.step, radius=radius, strength=.3,
           plot_width=r.choice([400, 600]))
    shown = [k[1] for k in bokeh.io.CALLS if k[0] == 'show']
    c.check(len(shown) == 1, 'plot:shown')
    files = [k[1] for k in bokeh.io.CALLS if k[0] == 'output_file']
    c.check(files and files[-1] == f.name + '.html', 'plot:file', files,
            f.name)
    fig = shown[0]
    x0, y0, x1, y1 = s.domain.bounds
    check_ranges(c, fig, [x0, x1], [y0, y1], 1, .1, 'plot')
    by = {}
    for g in fig.glyphs:
        by.setdefault(g[0], []).append(g)
    c.check(len(by.get('image', [])) == 1 and len(by.get('segment', [])) == 1,
            'plot:maps')
    img = by['image'][0]
    img = img[1][0] if img[1] else img[2]['image']
    mgrid, dmap, dirs = f.navigation_to_target(
        'closest', s.step, radius, .3)
    have = np.asarray(img[0], dtype=float)
    c.check(np.isfinite(have).all(), 'plot:values')
    mask = np.ma.getmaskarray(dmap)
    c.check(np.array_equal(have[~mask], np.asarray(dmap)[~mask]),
            'plot:distances')
    geoms = [('domain', f.domain)] + \
        [('spawn_%d' % i, g) for i, g in enumerate(f.spawns)] + \
        [('target_%d' % i, g) for i, g in enumerate(f.targets)] + \
        ([('obstacles', f.obstacles)] if f.obstacles is not None else [])
    names = [g[2].get('legend') for g in fig.glyphs
             if g[0] in ('circle', 'line', 'patch')]
    c.equal(sorted(names), sorted(n for n, g in geoms for _ in parts(g)),
            'plot:legends')
    for n, g in geoms:
        same_glyphs(c, [k for k in fig.glyphs if k[2].get('legend') == n],
                    parts(g), 'plot:' + n.split('_')[0])
    c.count('cells', int(have.size))
    c.nontrivial(len(fig.glyphs), have.shape, x0)


class N(LogicNodeBase):
    def update(self):
        pass


def shape(children, n):
    return '(' + ''.join(sorted(shape(children, k)
                                for k in children.get(n, ()))) + ')'


def named(children, n):
    return (n, sorted(named(children, k) for k in children.get(n, ())))


@section('tree', quick=300, thorough=10000)
def trees(c):
    r = c.rng
    n = r.choice([1, 2, 3, 6, 12, 30])
    pool = ['Reset', 'Integrator', 'Adjusting', 'Navigation', 'Exit 1', 'a-b',
            u'\u00e4', 'X']
    shared = r.random() < .4
    nodes = []
    for i in range(n):
        name = r.choice(pool) + ('' if shared else '_%d' % i)
        node = N(name=name)
        if nodes:
            r.choice(nodes[-4:]).add_children(node)
        nodes.append(node)
    d = c.tmpdir()
    png = r.random() < .1
    path = os.path.join(str(d), r.choice(['t', 'tree v1.2']) +
                        ('.png' if png else '.dot'))
    start = r.choice(nodes)
    if png:      # a program of that name that copies its input
        bin_ = os.path.join(str(d), 'bin')
        os.mkdir(bin_)
        with open(os.path.join(bin_, 'dot'), 'w') as f:
            f.write('#!/bin/sh\ncp "$1" "$5"\n')
        os.chmod(os.path.join(bin_, 'dot'), 0o755)
        old = os.environ['PATH']
        os.environ['PATH'] = bin_ + os.pathsep + old
    try:
        c.call('tree', V.render_tree, start,
               Path(path) if r.random() < .3 else path)
    finally:
        if png:
            os.environ['PATH'] = old
    with open(path, encoding='utf-8') as f:
        lines = [l.strip() for l in f]
    c.check(lines[0].startswith('digraph') and lines[-1] == '}', 'tree:graph')
    ids, edges = [], []
    for l in lines[1:-1]:
        m = re.match(r'^"([^"]*)" -> "([^"]*)"', l)
        if m:
            edges.append(m.groups())
            continue
        m = re.match(r'^"([^"]*)"', l)
        if m:
            ids.append(m.group(1))
    c.equal(len(ids), n, 'tree:number')
    c.equal(len(set(ids)), n, 'tree:merged', ids)
    c.equal(len(edges), n - 1, 'tree:edges')
    children = {}
    for a, b in edges:
        children.setdefault(a, []).append(b)
    roots = set(ids) - {b for _, b in edges}
    c.equal(len(roots), 1, 'tree:roots')
    own = {id(k): [id(j) for j in k.children] for k in nodes}
    root = roots.pop()
    c.equal(shape(children, root), shape(own, id(nodes[0])), 'tree:shape')
    if not shared:
        c.equal(set(ids), {k.name for k in nodes}, 'tree:names')
        byname = {k.name: [j.name for j in k.children] for k in nodes}
        c.equal(named(children, root), named(byname, nodes[0].name),
                'tree:links')
    c.count('nodes', n)
    c.state('shared names', shared, png)
    if n > 2:
        c.nontrivial(n, shape(children, root), shared)
    c.raises(Exception, 'tree:format', V.render_tree, start,
             path[:-4] + r.choice(['.txt', '', '.svgz']))
