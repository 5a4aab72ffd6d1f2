"""Generated nestings of directory-scoped blocks ending in every way, generated
module files, signatures, docstring templates and deprecated functions. The
oracle is the generator's own record of what it built. Non-trivial: nested or
exceptional block histories, modules mixing sub- and non-subclasses, signatures
with several parameter kinds."""
import inspect
import os
import sys
import warnings
from pathlib import Path

from crowddynamics import config as cfg
from crowddynamics import utils
from crowddynamics.exceptions import deprecated
from harness import section

RULE = __doc__


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


def real(p):
    return os.path.realpath(p)


@section('cwd', 600, 40000)
def cwd(c):
    r = c.rng
    root = real(c.tmpdir())
    dirs = []
    for k in range(4):
        d = os.path.join(root, 'd%d' % k, r.choice(['sub dir', 'blank ', '$HOME'])
                         if k % 2 else r.choice(['é', ' é', '~']))
        os.makedirs(d)
        dirs.append(d)
    start = r.choice(dirs)
    before_all = os.getcwd()
    os.chdir(start)
    trace = []

    def form(d):
        """A way of writing the directory d."""
        k = r.randrange(4)
        if k == 0:
            return os.path.relpath(d)
        if k == 1:
            return Path(d)
        if k == 2:
            return os.path.join(d, '..', os.path.basename(d))
        return d

    def block(depth):
        here = real(os.getcwd())
        target = r.choice(dirs)
        arg = form(target)
        end = r.choice(['normal', 'normal', 'exc', 'base', 'return', 'missing',
                        'chdir', 'chdir-exc', 'genclose', 'nested-missing',
                        'loop-break'])
        trace.append((depth, target[len(root):], end))
        if end == 'missing':
            bad = r.choice([os.path.join(root, 'nope'), 'nope/../nope'])
            try:
                with utils.remember_cwd(bad):
                    c.fail('entered-missing-directory', bad)
            except OSError:
                pass
        elif end == 'genclose':
            def gen():
                with utils.remember_cwd(arg):
                    yield real(os.getcwd())
            g = gen()
            inside = next(g)
            c.equal(inside, target, 'cwd-inside')
            g.close()
        elif end == 'loop-break':
            for _ in range(3):
                with utils.remember_cwd(arg):
                    c.equal(real(os.getcwd()), target, 'cwd-inside')
                    break
        elif end == 'return':
            def f():
                with utils.remember_cwd(arg):
                    return real(os.getcwd())
            c.equal(f(), target, 'cwd-inside')
        else:
            want = {'exc': Boom, 'chdir-exc': Boom, 'base': Hard}.get(end)
            try:
                with utils.remember_cwd(arg):
                    c.equal(real(os.getcwd()), target, 'cwd-inside')
                    if depth < 3 and r.random() < .7:
                        for _ in range(r.choice([1, 2])):
                            block(depth + 1)
                        c.equal(real(os.getcwd()), target,
                                'cwd-after-inner-block', trace)
                    if end.startswith('chdir'):
                        os.chdir(r.choice(dirs))
                    if want:
                        raise want('x')
                c.check(want is None, 'exception-swallowed', end)
            except (Boom, Hard) as e:
                c.check(type(e) is want, 'exception-changed', type(e), end)
        c.equal(real(os.getcwd()), here, 'cwd-not-restored', end, trace)
        c.count('blocks')
        c.state('endings', depth, end)
    try:
        for _ in range(r.choice([1, 2, 3])):
            block(0)
        c.equal(real(os.getcwd()), start, 'cwd-not-restored', trace)
    finally:
        os.chdir(before_all)
    if len(trace) > 1:
        c.nontrivial(trace)
    c.sample(trace)


class Base(object):
    pass


class Other(object):
    pass


@section('subclasses', 400, 20000)
def subclasses(c):
    r = c.rng
    d = c.tmpdir()
    lines = ['import sys, os', 'import c06_bases as bases',
             'from c06_bases import Base as B']
    want, order = {}, []
    classes = {}      # name -> is a strict subclass

    def bind(name, ok):
        if name not in order:
            order.append(name)
        want[name] = ok
    bind('B', False)
    n = r.choice([0, 1, 3, 6, 10])
    for k in range(n):
        name = r.choice(['Zeta', 'Alpha', 'M', '_Private', 'x', 'Sim']) + str(
            r.choice([k, k, 0]))
        kind = r.choice(['sub', 'sub', 'subsub', 'other', 'instance', 'func',
                         'alias', 'imported', 'base-alias', 'delete', 'weird',
                         'multi', 'meta'])
        subs = [x for x in classes if classes[x] and want.get(x)]
        if kind == 'sub':
            lines.append('class %s(bases.Base): pass' % name)
            bind(name, True)
            classes[name] = True
        elif kind == 'subsub' and subs:
            base = r.choice(subs)
            lines.append('class %s(%s): pass' % (name, base))
            bind(name, True)
            classes[name] = True
        elif kind == 'multi':
            lines.append('class %s(bases.Other, B): pass' % name)
            bind(name, True)
            classes[name] = True
        elif kind == 'meta':
            lines.append('class %sMeta(type): pass' % name)
            bind(name + 'Meta', False)
            lines.append('class %s(B, metaclass=%sMeta): pass' % (name, name))
            bind(name, True)
            classes[name] = True
        elif kind == 'other':
            lines.append('class %s(bases.Other): pass' % name)
            bind(name, False)
            classes[name] = False
        elif kind == 'instance':
            lines.append('%s = bases.Base()' % name)
            bind(name, False)
            classes.pop(name, None)
        elif kind == 'func':
            lines.append('def %s(): return bases.Base' % name)
            bind(name, False)
            classes.pop(name, None)
        elif kind == 'alias' and subs:
            base = r.choice(subs)
            lines.append('%s = %s' % (name, base))
            bind(name, True)
            classes[name] = True
        elif kind == 'imported':
            lines.append('from c06_bases import Derived as %s' % name)
            bind(name, True)
            classes[name] = True
        elif kind == 'base-alias':
            lines.append('%s = bases.Base' % name)
            bind(name, False)
            classes.pop(name, None)
        elif kind == 'weird':
            lines.append('%s = %s' % (name, r.choice(
                ['None', '1', '"Base"', '[bases.Base]', '{}',
                 'lambda: 1', 'type("T", (), {})()', 'bases'])))
            bind(name, False)
            classes.pop(name, None)
        elif kind == 'delete' and len(order) > 1:
            victim = r.choice(order[1:])
            lines.append('del %s' % victim)
            order.remove(victim)
            want.pop(victim)
            classes.pop(victim, None)
    fname = r.choice(['mod', 'simulation', 'a b', 'x.y', '1st', 'test']) + '.py'
    path = os.path.join(d, fname)
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    c.note('module', lines)
    import types
    bases = types.ModuleType('c06_bases')
    bases.Base, bases.Other = Base, Other
    bases.Derived = type('Derived', (Base,), {})
    sys.modules['c06_bases'] = bases
    arg = Path(path) if r.random() < .3 else path
    got = c.call('import_subclasses', utils.import_subclasses, arg, Base)
    names = [x for x in order if want[x]]
    c.equal(list(got), names, 'subclass-names', lines)
    for k, v in got.items():
        c.check(isinstance(v, type) and issubclass(v, Base) and v is not Base,
                'not-a-strict-subclass', k, v)
    c.count('modules')
    c.count('subclasses_found', len(names))
    if 0 < len(names) < len(order):
        c.nontrivial(lines)
    c.sample(lines)


@section('filter', 60, 1000)
def filter_(c):
    for obj, want in [(Base, False), (type('S', (Base,), {}), True),
                      (Other, False), (Base(), False), (None, False),
                      (3, False), ('Base', False), (object, False),
                      (type, False), ([], False)]:
        c.equal(bool(c.call('filter_cls', utils.filter_cls, Base, obj)), want,
                'filter', obj)
    c.equal(bool(utils.filter_cls(object, object)), False, 'filter')
    c.nontrivial(c.index)


@section('signature', 500, 30000)
def signature(c):
    r = c.rng
    n = r.choice([0, 1, 2, 4, 7])
    method = r.random() < .5
    kinds, want = [], []
    parts = []
    if method:
        parts.append('self')
    defaults, anns = {}, {}
    names = r.sample(['a', 'b', 'size', 'x1', 'self_', 'myself', 'name', 'cls',
                      'default', 'annotation', 'z', 'kw'], n)
    seen_default = False
    star = False
    env = {'D': defaults, 'A': anns}
    for k, name in enumerate(names):
        mode = r.choice(['pos', 'pos', 'kwonly'])
        if mode == 'kwonly' and not star:
            parts.append('*' if r.random() < .5 else '*args')
            if parts[-1] == '*args':
                want.append(('args', None, None))
            star = True
        has_default = r.random() < .5
        if not star and seen_default:
            has_default = True
        if has_default and not star:
            seen_default = True
        dv = r.choice([0, 1, -2.5, 'text', '', False, True, None, (1, 2), [],
                       {}, float, object(), ..., NotImplemented, len])
        av = r.choice([int, float, bool, str, 'text', (0, 5), [1], None])
        has_ann = r.random() < .6
        s = name
        if has_ann:
            anns[name] = av
            s += ': A[%r]' % name
        if has_default:
            defaults[name] = dv
            s += ' = D[%r]' % name
        parts.append(s)
        want.append((name, dv if has_default else None,
                     av if has_ann else None))
    if r.random() < .2:
        parts.append('**kwargs')
        want.append(('kwargs', None, None))
    src = 'def f(%s): pass' % ', '.join(parts)
    if r.random() < .15 and not method:
        src = 'class f(object):\n    def __init__(self%s): pass' % ''.join(
            ', ' + p for p in parts)
    exec(src, env)
    f = env['f']
    c.note(src)
    got = c.call('parse_signature', lambda: list(utils.parse_signature(f)))
    c.equal([g.name for g in got], [w[0] for w in want], 'parameters', src)
    for g, w in zip(got, want):
        c.check(g.default is w[1], 'default', src, g, w)
        c.check(g.annotation is w[2], 'annotation', src, g, w)
    if n > 1:
        c.nontrivial(src)
    c.sample(src)


@section('docstring', 300, 10000)
def docstring(c):
    r = c.rng
    n = r.choice([0, 1, 2, 5])
    subs, want, doc, out = {}, [], '', ''
    for k in range(n):
        name = 'key_%d' % k
        v = r.choice(['text', '', '100%', '%s', '%(key_0)s', 'é\nline', 'call'])
        if v == 'call':
            subs[name] = lambda cls, k=k: '%s:%d:%d' % (cls.__name__, k, cls.X)
            want.append('Klass:%d:7' % k)
        else:
            subs[name] = v
            want.append(v)
    for _ in range(r.choice([0, 1, 4])):
        p = r.choice(['plain ', '%', '\n    indented', 'e'])
        doc += p.replace('%', '%%')
        out += p
        if n:
            k = r.randrange(n)
            doc += '%%(key_%d)s' % k
            out += want[k]
    klass = type('Klass', (object,), {'__doc__': doc, 'X': 7})
    got = c.call('interpolate', lambda: utils.interpolate_docstring(
        **subs)(klass))
    c.check(got is klass, 'other-class-returned')
    c.equal(klass.__doc__, out, 'docstring', doc, sorted(subs))
    if n and doc:
        c.nontrivial(doc)


@section('deprecated', 300, 10000)
def deprecated_(c):
    r = c.rng
    calls = []

    def original(*args, **kwargs):
        """Original doc"""
        calls.append((args, kwargs))
        if kwargs.get('boom'):
            raise Boom('b')
        return ('result', args, tuple(sorted(kwargs.items())))
    kind = r.choice(['function', 'method', 'generator', 'lambda'])
    if kind == 'generator':
        def original(*args, **kwargs):  # noqa
            """Original doc"""
            calls.append((args, kwargs))
            yield ('result', args, tuple(sorted(kwargs.items())))
            yield 'second'
    if kind == 'lambda':
        def inner(*a, **k):
            calls.append((a, k))
            return ('result', a, tuple(sorted(k.items())))
        original = lambda *a, **k: inner(*a, **k)  # noqa
    dep = c.call('decorate', deprecated, original)
    c.equal(dep.__name__, original.__name__, 'name')
    c.equal(dep.__doc__, original.__doc__, 'doc')
    owner = None
    fn = dep
    if kind == 'method':
        owner = type('K', (object,), {'m': dep})()
        fn = owner.m
    for rep in range(r.choice([1, 2, 3])):
        args = tuple(r.choice([1, 'a', None, [], 2.5])
                     for _ in range(r.randrange(4)))
        kw = {k: r.choice([1, 'v']) for k in r.sample(['p', 'q', 'func'],
                                                      r.randrange(3))}
        boom = kind == 'function' and r.random() < .2
        if boom:
            kw['boom'] = True
        del calls[:]
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            if boom:
                try:
                    fn(*args, **kw)
                    c.fail('exception-swallowed')
                except Boom:
                    pass
                except Exception as e:
                    c.fail('deprecated:raised', repr(e))
            else:
                out = c.call('deprecated', fn, *args, **kw)
                full = ((owner,) + args) if owner is not None else args
                expect = ('result', full, tuple(sorted(kw.items())))
                if kind == 'generator':
                    c.equal(list(out), [expect, 'second'], 'result')
                else:
                    c.equal(out, expect, 'result')
        c.equal(len(calls), 1, 'calls-of-original')
        c.check(any(issubclass(w.category, DeprecationWarning) for w in got),
                'no-warning', [str(w.message) for w in got])
    c.nontrivial(kind, args, sorted(kw), rep)
    c.state('kinds', kind)


@section('callables', 60, 2000)
def callables(c):
    """The deprecated importer of simulation functions is a deprecated function
    with directory blocks inside."""
    r = c.rng
    d = real(c.tmpdir())
    conf, want = ['[simulations]'], []
    for k in range(r.choice([0, 1, 3])):
        name = 'sim%d' % k
        funcs = ['f%d_%d' % (k, j) for j in range(r.choice([1, 2, 3]))]
        present = [f for f in funcs if r.random() < .8]
        with open(os.path.join(d, name + '.py'), 'w') as fp:
            fp.write('import os\nHERE = os.path.realpath(os.getcwd())\n')
            for f in present:
                fp.write('def %s():\n    return %r, HERE\n' % (f, f))
        conf += ['[[%s]]' % name, 'path = %s.py' % name,
                 'functions = %s,' % ', '.join(funcs)]
        want += present
    path = os.path.join(d, 'crowddynamics.cfg')
    with open(path, 'w') as fp:
        fp.write('\n'.join(conf) + '\n')
    here = real(os.getcwd())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        stop = r.choice([None, None, 1, 2])
        gen = c.call('import_callables', cfg.import_simulation_callables, path)
        got = []
        for k, item in enumerate(c.call('import_callables', iter, gen)):
            got.append(item)
            if stop is not None and k + 1 >= stop:
                gen.close()
                break
    c.equal(real(os.getcwd()), here, 'cwd-not-restored')
    c.equal([g[0] for g in got], want[:stop], 'functions')
    for n, f in got:
        c.equal(f(), (n, d), 'executed-elsewhere')
    if want:
        c.nontrivial(conf, stop)
