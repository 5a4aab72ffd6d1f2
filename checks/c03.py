"""Dictionaries of geometries are saved, the file is loaded back and compared
structurally (type, exact coordinates, containers); repeated saves to one file
must replace it. Non-trivial: at least one container, multi-part geometry or
polygon with holes."""
import json
import os
import pathlib
from collections import OrderedDict

from shapely.geometry import GeometryCollection, MultiPolygon, Polygon
from shapely.geometry.base import BaseGeometry

from crowddynamics import io as cio
from geoms import anygeom as nonempty, multi, plain, polygon, single
from harness import section

RULE = __doc__
NAMES = ['domain', 'obstacles', 'targets', 'spawns', 'type', 'coordinates',
         'geometries', 'a b', 'é', '0', '', 'a', ' a', 'a ', 'A',
         'x.y', 'line\nbreak', '"', '\\', 'null', 'targets_10']


def anygeom(c):
    """Any geometry, now and then one without a point."""
    if c.rng.random() < .07:
        c.count('empty geometries')
        return c.rng.choice([Polygon, MultiPolygon, GeometryCollection])()
    return nonempty(c)


def value(c):
    r = c.rng
    k = r.randrange(9)
    if k == 0:
        return None
    if k in (1, 2):
        return single(c)
    if k == 3:
        return multi(c)
    if k == 4:
        return polygon(c, holes=True)
    if k in (5, 6):
        v = [anygeom(c) for _ in range(r.choice([0, 1, 2, 5]))]
        return tuple(v) if r.random() < .3 else v
    names = r.sample(NAMES, r.choice([0, 1, 3]))
    return (OrderedDict if r.random() < .5 else dict)(
        (n, anygeom(c)) for n in names)


def compare(c, got, want, where):
    if want is None:
        c.check(got is None, 'nothing-loaded', where, got)
    elif isinstance(want, BaseGeometry):
        c.check(isinstance(got, BaseGeometry), 'geometry-lost', where,
                'loaded', got, 'saved', want)
        c.equal(plain(got), plain(want), 'geometry-changed', where)
        c.count('geometries_compared')
    elif isinstance(want, (list, tuple)):
        c.check(isinstance(got, list), 'list-lost', where, got)
        c.equal(len(got), len(want), 'list-length', where)
        for k, (g, w) in enumerate(zip(got, want)):
            compare(c, g, w, '%s[%d]' % (where, k))
    else:
        c.check(isinstance(got, dict), 'mapping-lost', where, got)
        c.equal(sorted(got), sorted(want), 'mapping-keys', where)
        for k in want:
            compare(c, got[k], want[k], '%s[%r]' % (where, k))


@section('round-trip', 400, 20000)
def round_trip(c):
    r = c.rng
    path = os.path.join(c.tmpdir(), 'geometry.json')
    arg = path if r.random() < .5 else pathlib.Path(path)
    rich = False
    for rep in range(r.choice([1, 1, 2, 3])):
        d = OrderedDict((n, value(c))
                        for n in r.sample(NAMES, r.choice([0, 1, 4, 6])))
        before = {k: v for k, v in d.items()}
        c.note('save', d)
        c.call('save', cio.save_geometry_json, arg, d)
        c.check(list(d) == list(before) and
                all(d[k] is before[k] for k in d), 'caller-dict-changed')
        with open(path) as fp:
            text = fp.read()
        try:
            json.loads(text)
        except ValueError as e:
            c.fail('not-json', '%s (save %d): %s' % (e, rep, text[:300]))
        got = c.call('load', cio.load_geometry_json, arg)
        c.check(isinstance(got, dict), 'result-type', got)
        compare(c, got, dict(d), '')
        # loading again gives the same; saving what was loaded as well
        compare(c, c.call('load', cio.load_geometry_json, arg), dict(d), '')
        path2 = os.path.join(c.tmpdir(), 'again.json')
        c.call('save', cio.save_geometry_json, path2, got)
        compare(c, c.call('load', cio.load_geometry_json, path2), dict(d),
                'second generation ')
        for v in d.values():
            if v is not None and (not isinstance(v, BaseGeometry) or
                                  plain(v)['type'] not in
                                  ('Point', 'LineString')):
                rich = True
                c.state('kind', type(v).__name__, [
                    plain(x)['type'] for x in (
                        [v] if isinstance(v, BaseGeometry) else
                        v.values() if hasattr(v, 'values') else v)])
    if rich:
        c.nontrivial(sorted(d), [str(v)[:60] for v in d.values()])
    c.sample({k: str(v)[:60] for k, v in d.items()})
