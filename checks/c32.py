"""Random class hierarchies (single, multiple and diamond inheritance, mixins,
overridden declarations, exclusions by name and by class) with random traits and
defaults, bounds at extremes, texts with quotes and line separators. Monitors:
listings against an own walk of the hierarchy, dtypes by storing and reading
each default, options by running real click commands with and without values and
assigning the results to instances, tables by parsing them again, validators
against own measures. Non-trivial: several traits over several classes, values
at and beyond bounds."""
import csv
import math
import textwrap

import click
import numpy as np
from click.testing import CliRunner
from traitlets import Any, Bool, CFloat, CInt, Complex, Dict, Enum, Float, \
    HasTraits, Instance, Int, List, TraitError, Tuple, Unicode
from traittypes import Array

from crowddynamics import traits as T
from crowddynamics.exceptions import InvalidType, InvalidValue
from harness import section

RULE = __doc__
MAX = 2 ** 63 - 1
NAMES = ['mass', 'radius', 'alpha', '_hidden', 'Xi', 'b2', 'long_name_of_trait',
         'zeta', 'a', 'order', 'dt', '_p', 'theta', 'Q']


def number(c):
    r = c.rng
    return r.choice([0.0, 1.0, -2.5, 1e-12, 1e18, -1e300, r.uniform(-9, 9),
                     r.gauss(0, 1)])


def integer(c):
    r = c.rng
    return r.choice([0, 1, -1, 255, -2 ** 31, 2 ** 40, MAX, -MAX - 1,
                     r.randint(-99, 99)])


def text(c):
    r = c.rng
    return r.choice(['', 'name', 'two words', 'quo"te', 'a, b', "it's",
                     u'\u00e4\u00f6', 'x=1;', '100%', '{0}', '\\alpha'])


KINDS = ('int', 'bounded', 'float', 'bfloat', 'complex', 'bool', 'array',
         'unicode', 'enum', 'tuple')


def make(c, kinds=KINDS):
    """(kind, trait, default, extra)"""
    r = c.rng
    k = r.choice(kinds)
    meta = {}
    if r.random() < .6:
        meta['help'] = text(c)
    if r.random() < .5:
        meta['symbol'] = r.choice(['r', '\\alpha', 'x_0', '\\mathbf{v}', ''])
    if k == 'int':
        d = integer(c)
        return k, r.choice([Int, Int, CInt])(default_value=d, **meta), d, None
    if k == 'bounded':
        lo, hi = sorted((integer(c), integer(c)))
        b = r.randrange(3)
        lo, hi = (lo, hi) if b == 0 else (lo, None) if b == 1 else (None, hi)
        d = lo if lo is not None and r.random() < .5 else \
            hi if hi is not None else lo
        return k, Int(default_value=d, min=lo, max=hi, **meta), d, (lo, hi)
    if k in ('float', 'bfloat'):
        d = number(c)
        b = {'min': d - abs(d)} if k == 'bfloat' else {}
        return k, r.choice([Float, Float, CFloat])(
            default_value=d, **dict(meta, **b)), d, None
    if k == 'complex':
        d = complex(number(c), r.uniform(-2, 2))
        return k, Complex(default_value=d, **meta), d, None
    if k == 'bool':
        d = r.random() < .5
        return k, Bool(default_value=d, **meta), d, None
    if k == 'unicode':
        d = text(c)
        return k, Unicode(default_value=d, **meta), d, None
    if k == 'enum':
        v = r.choice([['a', 'b', 'c c'], [1, 2, 5], [.5, -1.0],
                      ['circular', 'three_circle'], [True, False], [1, 'two']])
        d = r.choice(v)
        return k, Enum(default_value=d, values=v, **meta), d, v
    if k == 'tuple':
        parts = [make(c, ('int', 'float', 'unicode', 'complex'))
                 for _ in range(r.randint(2, 3))]
        d = tuple(p[2] for p in parts)
        return k, Tuple(*[p[1] for p in parts], default_value=d, **meta), d, \
            parts
    dt = r.choice([np.float64, np.int64, np.complex128, np.bool_, np.int32])
    shape = r.choice([(), (2,), (3,), (2, 2), (1,), (4, 2, 3), (0,)])
    d = np.array(np.reshape([r.randint(-4, 4) for _ in range(
        int(np.prod(shape)))], shape), dtype=dt)
    return 'array', Array(default_value=d, dtype=dt, **meta), d, dt


def hierarchy(c, kinds=KINDS):
    """[(class, [own names])] in order of creation, what every name is."""
    r = c.rng
    classes, own, what = [], {}, {}
    for i in range(r.randint(1, 5)):
        k = r.random()
        if not classes or k < .3:
            bases = (HasTraits,)
        elif k < .7:
            bases = (r.choice(classes),)
        else:
            bases = tuple(r.sample(classes, min(2, len(classes))))
        if r.random() < .2:
            bases = bases + (type('Mixin%d' % i, (), {'helper': 1}),)
        names = r.sample(NAMES, r.randint(0, 4))
        ns = {'_not_trait': 5, 'method': lambda self: None}
        made = {}
        for n in names:
            made[n] = make(c, kinds)
            ns[n] = made[n][1]
        ns['after'] = 'text'
        try:
            cls = type(HasTraits)('C%d' % i, bases, ns)
        except TypeError:        # no consistent order of the bases
            continue
        classes.append(cls)
        own[cls] = names
        what[cls] = made
    return classes, own, what


def expected(cls, own, attrs, classes):
    out, seen = [], set()
    for k in cls.__mro__:
        if k not in own or (classes and classes(k)):
            continue
        for n in own[k]:
            if n not in seen and not (attrs and attrs(n)):
                seen.add(n)
                out.append((n, k))
    return out


def exclusions(c, classes):
    r = c.rng
    attrs = r.choice([None, None, lambda n: n.startswith('_'),
                      lambda n: len(n) > 3])
    out = r.choice(classes)
    cl = r.choice([None, None, lambda k: k is out,
                   lambda k: k.__name__ == 'C0'])
    return attrs, cl


@section('listing', quick=1500, thorough=60000)
def listing(c):
    classes, own, what = hierarchy(c)
    cls = classes[-1] if c.rng.random() < .7 else c.rng.choice(classes)
    attrs, excl = exclusions(c, classes)
    kw = {}
    if attrs:
        kw['exclude_attrs'] = attrs
    want_own = [n for n in own[cls] if not (attrs and attrs(n))]
    got = list(c.call('own', T.class_own_traits, cls, **kw))
    c.equal([n for n, _ in got], want_own, 'listing:own')
    c.check(all(t is what[cls][n][1] for n, t in got), 'listing:own-trait')
    if excl:
        kw['exclude_cls'] = excl
    got = list(c.call('listing', T.class_traits, cls, **kw))
    want = expected(cls, own, attrs, excl)
    c.note('hierarchy', [(k.__name__, own.get(k)) for k in cls.__mro__])
    c.equal([n for n, _ in got], [n for n, _ in want], 'listing:names')
    c.check(all(t is what[k][n][1] for (_, t), (n, k) in zip(got, want)),
            'listing:trait')
    depth = len({k for _, k in want})
    c.state('levels', depth)
    c.count('names', len(want))
    if depth > 1 and len(want) > 2:
        c.nontrivial(depth, tuple(n for n, _ in want))


@section('dtype', quick=1500, thorough=60000)
def dtype(c):
    """Defaults survive being stored in an array of the class's dtype."""
    kinds = ('int', 'bounded', 'float', 'bfloat', 'complex', 'bool', 'array')
    classes, own, what = hierarchy(c, kinds)
    cls = classes[-1]
    attrs, excl = exclusions(c, classes)
    want = expected(cls, own, attrs, excl)
    got = c.call('dtype', T.class_to_struct_dtype, cls, attrs, excl)
    c.equal(tuple(got.names or ()), tuple(n for n, _ in want), 'dtype:names')
    a = np.zeros(3, got)
    for n, k in want:
        kind, trait, default, extra = what[k][n]
        f = got[n]
        spec = c.call('dtype', T.trait_to_dtype, n, trait)
        c.equal(spec[0], n, 'dtype:name')
        if kind == 'array':
            c.equal(f.shape, default.shape, 'dtype:shape')
            c.equal(f.base, np.dtype(extra), 'dtype:base')
        else:
            c.equal(f.shape, (), 'dtype:shape')
            c.equal(f.kind, {'i': 'i', 'f': 'f', 'c': 'c', 'b': 'b'}[
                {'int': 'i', 'bounded': 'i', 'float': 'f', 'bfloat': 'f',
                 'complex': 'c', 'bool': 'b'}[kind]], 'dtype:kind')
        a[n][1] = default
        c.check(np.array_equal(a[n][1], default), 'dtype:default', kind,
                default, a[n][1])
        back = a[n][1] if kind == 'array' else a[n][1].item()
        if getattr(cls, n) is trait:     # not hidden by an excluded class
            inst = cls()
            setattr(inst, n, back)       # accepted by the trait
            c.check(np.array_equal(getattr(inst, n), default), 'dtype:back')
        c.state('kind', kind)
        c.count('fields')
    if len(want) > 1:
        c.nontrivial(tuple((n, what[k][n][0]) for n, k in want))


def as_args(v):
    if isinstance(v, tuple):
        return [as_args(x)[0] for x in v]
    return [repr(v) if isinstance(v, (float, complex)) else str(v)]


def another(c, kind, default, extra):
    """A valid value other than the default."""
    r = c.rng
    if kind == 'int':
        return integer(c)
    if kind == 'bounded':
        lo, hi = extra
        return lo if lo is not None and r.random() < .5 else \
            hi if hi is not None else lo + 3 if lo < MAX - 9 else lo
    if kind == 'float':
        return number(c)
    if kind == 'bfloat':
        return abs(default) * 3 + 1
    if kind == 'complex':
        return complex(r.uniform(-3, 3), r.uniform(-1, 1))
    if kind == 'unicode':
        return text(c)
    if kind == 'enum':
        return r.choice(extra)
    if kind == 'bool':
        return not default
    return tuple(another(c, p[0], p[2], p[3]) for p in extra)


@section('option', quick=700, thorough=25000)
def option(c):
    """Real command lines: defaults, given values, values out of bounds."""
    r = c.rng
    kinds = tuple(k for k in KINDS if k != 'array')
    made = {n: make(c, kinds) for n in
            r.sample([n.lower().strip('_') for n in NAMES], r.randint(1, 4))}
    ns = {n: m[1] for n, m in made.items()}
    cls = type(HasTraits)('K', (HasTraits,), ns)
    opts = [c.call('option', T.trait_to_option, n, m[1])
            for n, m in made.items()]
    seen = []

    def run(given):
        del seen[:]
        cmd = click.Command('run', params=opts,
                            callback=lambda **kw: seen.append(kw))
        args = []
        for n, v in given.items():
            args.append('--' + n)
            if made[n][0] != 'bool':
                args += as_args(v)
        return CliRunner().invoke(cmd, args)

    given = {}
    for n, (kind, trait, default, extra) in made.items():
        if r.random() < .6:
            given[n] = another(c, kind, default, extra)
    for g in ({}, given):
        res = run(g)
        c.check(res.exit_code == 0 and len(seen) == 1, 'option:refused',
                g, res.output[-300:], repr(res.exception))
        got = seen[0]
        inst = c.call('option:assign', cls, **got)
        for n, (kind, trait, default, extra) in made.items():
            want = g.get(n, default)
            have = getattr(inst, n)
            c.check(type(have) is type(want) and
                    (have == want or have is want), 'option:value', kind,
                    'default' if n not in g else 'given', want, have)
            c.state('kind', kind, n in g)
            c.count('values')
    for n, (kind, trait, default, extra) in made.items():
        if kind == 'bounded':
            lo, hi = extra
            for v, bad in ((lo, lo is not None), (hi, hi is not None)):
                if bad:
                    w = v - 1 if v is lo else v + 1
                    res = run({n: w})
                    c.check(res.exit_code != 0 and not seen,
                            'option:out-of-bounds', extra, w)
        elif kind == 'enum':
            res = run({n: 'none of them'})
            c.check(res.exit_code != 0 and not seen, 'option:not-a-choice')
        elif kind in ('int', 'float', 'complex'):
            res = run({n: 'text'})
            c.check(res.exit_code != 0 and not seen, 'option:not-a-number')
    c.nontrivial(tuple((m[0], str(m[2])) for m in made.values()))


@section('type', quick=600, thorough=20000)
def types(c):
    r = c.rng
    kind, trait, default, extra = make(c)
    want = {'int': int, 'bounded': int, 'float': float, 'bfloat': float,
            'complex': complex, 'bool': bool, 'unicode': str}.get(kind)
    if want:
        c.check(T.trait_to_type(trait) is want, 'type:type', kind)
        c.check(isinstance(default, want), 'type:default', kind)
    else:
        c.raises(InvalidValue, 'type:unsupported', T.trait_to_type, trait)
    c.nontrivial(kind, str(default)[:20])
    c.state('kind', kind)
    # refusals
    odd = r.choice([List(), Dict(), Any(), Instance(klass=object)])
    for fn in (T.trait_to_type, lambda t: T.trait_to_dtype('x', t),
               lambda t: T.trait_to_option('x', t)):
        c.raises(InvalidValue, 'type:odd', fn, odd)
        bad = r.choice([3, 'Int', None, 1.5, int, object(), [Int()]])
        c.raises(InvalidType, 'type:not-a-trait', fn, bad)
    if kind in ('unicode', 'enum', 'tuple'):
        c.raises((InvalidValue, NotImplementedError), 'type:no-dtype',
                 T.trait_to_dtype, 'x', trait)
    if kind == 'array':
        c.raises(InvalidValue, 'type:no-option', T.trait_to_option, 'x', trait)


@section('table', quick=600, thorough=20000)
def table(c):
    classes, own, what = hierarchy(c)
    cls = classes[-1]
    out = c.call('table', T.table_of_traits, cls)
    lines = out.split('\n')
    head = [l for l in lines if l.strip()]
    c.check(head[0].startswith('.. csv-table::'), 'table:directive')
    body = textwrap.dedent('\n'.join(lines[lines.index(head[0]) + 1:]))
    opts, _, rest = body.partition('\n\n')
    c.check(':header-rows: 1' in opts, 'table:header-rows')
    c.check(all(l.startswith('   ') for l in head[1:]), 'table:indent', out)
    rows = [x for x in csv.reader(rest.replace('\r\n', '\n').split('\n')) if x]
    c.check(all(len(x) == len(rows[0]) for x in rows), 'table:columns', rest)
    cols = {n: i for i, n in enumerate(rows[0])}
    c.check({'name', 'symbol', 'default value', 'help'} <= set(cols),
            'table:header', rows[0])
    want = expected(cls, own, None, None)
    got = rows[1:]
    c.equal([x[cols['name']] for x in got], ['``%s``' % n for n, _ in want],
            'table:names')
    for x, (n, k) in zip(got, want):
        kind, trait, default, extra = what[k][n]
        meta = trait.metadata
        c.equal(x[cols['help']], meta.get('help', ''), 'table:help')
        s = meta.get('symbol', '')
        c.equal(x[cols['symbol']], ':math:`%s`' % s if s else '',
                'table:symbol')
        if kind not in ('array', 'tuple'):
            c.equal(x[cols['default value']], '``%s``' % default
                    if default != '' or not isinstance(default, str) else '',
                    'table:default')
        c.count('rows')
    if len(want) > 2:
        c.nontrivial(tuple(n for n, _ in want), str(got)[:200])


@section('validators', quick=1500, thorough=60000)
def validators(c):
    r = c.rng
    shape = tuple(r.randint(0, 4) for _ in range(r.randint(0, 3)))
    other = r.choice([shape, shape[::-1], shape + (1,), shape[:-1],
                      tuple(n + 1 for n in shape), (r.randint(0, 4),)])
    v = np.zeros(other)
    if other == shape:
        c.check(T.shape_validator(*shape)(None, v) is v, 'validators:same')
    else:
        c.raises(TraitError, 'validators:shape', T.shape_validator(*shape),
                 None, v)
    # lengths
    n = r.randint(1, 3)
    lengths = [r.choice([0.0, 1.0, r.uniform(.1, 9)]) for _ in range(n)]
    a = r.uniform(-math.pi, math.pi)
    k = r.randrange(4)
    l = r.choice(lengths)
    if k == 1:
        l = l + r.choice([-1, 1]) * max(l * 1e-3, 1e-3)
    elif k == 2:
        l = r.uniform(0, 10)
    elif k == 3:
        l = r.choice([1e6, 2 * l + .1, 1e-3, max(lengths)])
    w = np.array([l * math.cos(a), l * math.sin(a)])
    l = abs(l)
    gap = min(abs(l - x) / max(x, 1e-3) for x in lengths)
    if gap < 1e-9:
        c.check(T.length_validator(*lengths)(None, w) is w,
                'validators:length-ok', lengths, l)
    elif gap > 5e-4:
        c.raises(TraitError, 'validators:length', T.length_validator(*lengths),
                 None, w)
    else:
        c.skip('too near')
    # through a class
    class K(HasTraits):
        x = Array(default_value=np.zeros(shape), dtype=np.float64).valid(
            T.shape_validator(*shape))
    inst = K()
    c.check(inst.x.shape == shape, 'validators:default')
    if other == shape:
        inst.x = v
        c.check(inst.x.shape == shape, 'validators:set')
    else:
        old = inst.x
        try:
            inst.x = v
            c.fail('validators:accepted', (shape, other))
        except TraitError:
            c.check(inst.x is old, 'validators:kept')
    c.state('kind', k, other == shape)
    c.nontrivial(shape, other, k)
