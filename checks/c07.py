"""Generated directories of simulation modules whose classes record their
construction and runs, driven through the real command line (group, list, run
with options, chained commands, concat-npy) with valid and invalid option
values. Non-trivial: a directory with at least two simulations, or a refused
option value, or a recording of at least two chunks."""
import logging
import os
import sys
import types

import numpy as np
from click.testing import CliRunner

import loggingtools
live = []
_setup_logging = loggingtools.setup_logging
# Handlers of the root logger only where logging itself is watched
loggingtools.setup_logging = lambda *a, **k: live and _setup_logging(*a, **k)

from crowddynamics import cli, io as cio  # noqa: E402
from harness import section  # noqa: E402

RULE = __doc__
events = []
hook = types.ModuleType('c07_hook')
hook.events = events
sys.modules['c07_hook'] = hook

HEAD = '''import c07_hook
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from traitlets import HasTraits, Int, Float, Bool, Unicode, Enum, Tuple
'''
BODY = '''
class %(name)s(%(base)s):
%(traits)s
    marker = %(marker)d

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        if type(self).__name__ == %(name)r:
            c07_hook.events.append(('construct', type(self).__name__, type(self).marker, id(self),
            {n: getattr(self, n) for n in %(names)r}))

    def run(self):
        c07_hook.events.append(('run', type(self).__name__, type(self).marker, id(self),
            {n: getattr(self, n) for n in %(names)r}))
        if %(boom)r:
            raise RuntimeError('boom')
'''


def gen_trait(c, name):
    """(source, default, list of (argv, value), list of invalid argv)."""
    r = c.rng
    kind = r.choice(['int', 'int', 'float', 'float', 'bool', 'unicode', 'enum',
                     'enum-int', 'tuple'])
    opt = '--' + name
    if kind == 'int':
        lo = r.choice([None, r.randint(-9, 0)])
        hi = r.choice([None, r.randint(5, 50)])
        d = r.randint(0, 5)
        args = ['default_value=%d' % d]
        good = [d, 3, 0, 5]
        bad = ['x', '1.5', '']
        if lo is not None:
            args.append('min=%d' % lo)
            good.append(lo)
            bad.append(str(lo - 1))
        else:
            good.append(-10 ** 6)
        if hi is not None:
            args.append('max=%d' % hi)
            good.append(hi)
            bad.append(str(hi + 1))
        return ('Int(%s)' % ', '.join(args), d,
                [([opt, str(v)], v) for v in good],
                [[opt, b] for b in bad])
    if kind == 'float':
        lo = r.choice([None, -1.5, 0.0])
        hi = r.choice([None, 7.25])
        d = r.choice([0.0, 0.5, 2.5])
        args = ['default_value=%r' % d]
        good = [0.0, 1.0, 0.1 + 0.2, 3e-5]
        bad = ['x', '1,5']
        if lo is not None:
            args.append('min=%r' % lo)
            good.append(lo)
            bad.append(repr(lo - 1e-6))
        if hi is not None:
            args.append('max=%r' % hi)
            good.append(hi)
            bad.append(repr(hi + 1e-6))
        return ('Float(%s)' % ', '.join(args), d,
                [([opt, repr(v)], v) for v in good],
                [[opt, b] for b in bad])
    if kind == 'bool':
        return 'Bool(default_value=False)', False, [([opt], True)], []
    if kind == 'unicode':
        d = r.choice(['', 'abc', 'with space', '%s'])
        return ('Unicode(default_value=%r)' % d, d,
                [([opt, v], v) for v in ('x', '', 'a b', 'é', '3')], [])
    if kind == 'enum':
        vals = ('adult', 'child', 'Eldery')
        d = r.choice(vals)
        return ('Enum(default_value=%r, values=%r)' % (d, vals), d,
                [([opt, v], v) for v in vals],
                [[opt, 'male'], [opt, 'ADULT'], [opt, '']])
    if kind == 'enum-int':
        vals = (1, 2, 2.5)
        d = r.choice(vals)
        return ('Enum(default_value=%r, values=%r)' % (d, vals), d,
                [([opt, str(v)], v) for v in vals], [[opt, '3'], [opt, 'x']])
    d = (r.randint(0, 9), r.choice([0.5, 1.5]), 'ab')
    return ('Tuple(Int(), Float(), Unicode(), default_value=%r)' % (d,), d,
            [([opt, '4', '2.5', 'x'], (4, 2.5, 'x'))],
            [[opt, 'q', '2.5', 'x'], [opt, '1', 'y', 'x']])


NAMES = ['size', 'width', 'agent_type', 'body_type', 'dt', 'ratio', 'height',
         'door_width', 'x', 'y2', 'is_closed', 'maxIter', 'Seed', 'n_agents']
CLASSES = ['Outdoor', 'Hallway', 'Rounding', 'RoomWithOneExit', 'a_sim', 'Zz',
           'FourExits', 'Sim2', 'sim2b', 'Mixed_Case']


def build(c, directory):
    r = c.rng
    sims, helpers = {}, []
    pool = r.sample(CLASSES, r.choice([1, 2, 3, 5]))
    n_mod = r.choice([1, 1, 2, 3])
    mods = ['mod%d' % k for k in range(n_mod)]
    if r.random() < .4:      # file names that are no names of variables
        mods = r.sample(['my-sim', '2d', 'a.b', 'with space', 'class', 'j\u00e4',
                         '_under', 'UPPER'], n_mod)
    texts = {m: HEAD for m in mods}
    bases = {m: ['MultiAgentSimulation'] for m in mods}
    for k, name in enumerate(pool):
        m = r.choice(mods)
        names = r.sample(NAMES, r.choice([0, 1, 2, 4]))
        base = r.choice(bases[m])
        inherited = dict(sims[base]['all']) if base in sims else {}
        names = [n for n in names if n not in inherited]
        traits = {n: gen_trait(c, n) for n in names}
        allv = dict(inherited)
        allv.update({n: t[1] for n, t in traits.items()})
        texts[m] += BODY % dict(
            name=name, base=base, marker=k, names=sorted(allv), boom=False,
            traits='\n'.join('    %s = %s' % (n, t[0])
                             for n, t in traits.items()) or '    pass')
        sims[name] = dict(traits=traits, all=allv, marker=k, module=m)
        if r.random() < .3:
            bases[m].append(name)
        if r.random() < .4:
            h = 'Helper%d' % k
            helpers.append(h)
            texts[m] += '\nclass %s(HasTraits):\n    pass\n' % h
    for m in mods:
        with open(os.path.join(directory, m + '.py'), 'w') as fp:
            fp.write(texts[m])
    for junk in r.sample(['notes.txt', 'data.pyc', 'README', 'sim.py.bak',
                          '.hidden', 'x.pyx', 'agents_0.npy', 'copy', 'py',
                          'old_py', 'run.cfg', 'x.py.npy', 'py.txt'], 5):
        with open(os.path.join(directory, junk), 'w') as fp:
            fp.write('this is not python (')
    os.makedirs(os.path.join(directory, 'package'), exist_ok=True)
    c.note('modules', texts)
    return sims, helpers


def invoke(c, args):
    del events[:]
    res = CliRunner().invoke(cli.main, args)
    c.note('invoke', args, res.exit_code, res.output[:300], res.exception)
    return res


@section('commands', 160, 8000)
def commands(c):
    r = c.rng
    d = os.path.realpath(c.tmpdir())
    sims, helpers = build(c, d)
    old = os.getcwd()
    explicit = r.random() < .7     # as "python -m crowddynamics.cli" does
    cli.run.commands.clear()
    try:
        os.chdir(d)
        # listing
        res = invoke(c, ['list'])
        c.check(res.exit_code == 0 and res.exception is None, 'list:failed',
                res.exception)
        for name in sims:
            c.check("'%s'" % name in res.output, 'list-misses', name,
                    res.output)
        for h in helpers + ['MultiAgentSimulation']:
            c.check(h not in res.output, 'list-shows-other', h, res.output)
        c.check(events == [], 'list-constructs', events)
        got = c.call('import_simulations', cli.import_simulations)
        c.equal(sorted(got), sorted(sims), 'imported-names')
        os.chdir(old)
        got = c.call('import_simulations-dir', cli.import_simulations, d)
        c.equal(sorted(got), sorted(sims), 'imported-names-dir')
        os.chdir(d)
        if explicit:
            c.call('simulation_commands', cli.simulation_commands)
        if explicit or r.random() < .5:
            res = invoke(c, ['run', '--help'])
            c.check(res.exit_code == 0 and res.exception is None,
                    'run-help:failed', repr(res.exception), res.output)
            for name in sims:
                c.check(name in res.output, 'no-run-command', name, res.output)
        for _ in range(r.choice([1, 2, 4])):
            chain = [r.choice(list(sims))
                     for _ in range(r.choice([1, 1, 1, 2, 3]))]
            args, want, bad_at, before = ['run'], [], None, 0
            if r.random() < .3:
                args += ['--loglevel', r.choice(['INFO', 'DEBUG', 'WARNING'])]
            num = 1
            if r.random() < .3:
                num = r.choice([0, 1, 2, 3])
                args += ['--num', str(num)]
            for k, name in enumerate(chain):
                s = sims[name]
                args.append(name)
                vals = dict(s['all'])
                items = list(s['traits'].items())
                r.shuffle(items)
                for n, t in items:
                    if r.random() < .5:
                        continue
                    if num and t[3] and r.random() < .15 and bad_at is None:
                        args += r.choice(t[3])
                        bad_at = k
                    else:
                        argv, v = r.choice(t[2])
                        args += argv
                        vals[n] = v
                want += [(name, s['marker'], vals)] * num
                before = len(want) if bad_at is None else before
            res = invoke(c, args)
            runs = [e for e in events if e[0] == 'run']
            made = [e for e in events if e[0] == 'construct']
            if bad_at is None:
                c.check(res.exit_code == 0 and res.exception is None,
                        'run:failed', args, repr(res.exception), res.output)
                c.equal([e[1:3] for e in made], [w[:2] for w in want],
                        'constructed')
                c.equal([e[1:3] for e in runs], [w[:2] for w in want], 'run')
                for e, w, m in zip(runs, want, made):
                    c.check(e[3] == m[3], 'ran-another-object')
                    for n, v in w[2].items():
                        c.check(type(e[4][n]) is type(v) and e[4][n] == v,
                                'option-value', n, 'got', e[4][n],
                                'expected', v, args)
                        c.check(m[4][n] == v, 'option-set-after-construction',
                                n, m[4][n], v)
                order = [e[0] for e in events]
                c.equal(order, ['construct', 'run'] * len(want), 'order')
                c.count('runs', len(want))
            else:
                c.check(res.exit_code != 0, 'invalid-accepted', args,
                        res.output)
                c.check(len(runs) <= before, 'ran-with-invalid-option', args,
                        events)
                c.count('refused')
            c.state('invocations', len(chain), num, bad_at is None)
            if len(sims) > 1 or bad_at is not None:
                c.nontrivial(args, sorted(sims))
        name = r.choice(list(sims))
        del events[:]
        res = invoke(c, ['run', name, '--help'])
        c.equal(res.exit_code, 0, 'help:failed')
        for n in sims[name]['traits']:
            c.check('--' + n in res.output, 'option-missing-in-help', n,
                    res.output)
        c.check(events == [], 'help-constructs', events)
        res = invoke(c, ['run', 'NoSuchSim'])
        c.check(res.exit_code != 0 and events == [], 'unknown-accepted')
        c.sample(dict(args=args, classes=sorted(sims)))
    finally:
        os.chdir(old)
        cli.run.commands.clear()


LOGGING = '''import logging
from crowddynamics.simulation.multiagent import MultiAgentSimulation


class Talking(MultiAgentSimulation):
    def run(self):
        log = logging.getLogger('crowddynamics.talking')
        for level in (10, 20, 30, 40, 50):
            log.log(level, 'message-%d-', level)
'''
LEVELS = {name: getattr(logging, name)
          for name in ('CRITICAL', 'FATAL', 'ERROR', 'WARNING', 'WARN', 'INFO',
                       'DEBUG')}


@section('loglevel', 24, 600, weight=2)
def loglevel(c):
    """Messages of the chosen level and above reach the log files."""
    r = c.rng
    d = os.path.realpath(c.tmpdir())
    with open(os.path.join(d, 'talking.py'), 'w') as fp:
        fp.write(LOGGING)
    name, level = r.choice([(None, 20)] + list(LEVELS.items()) +
                           [(str(v), v) for v in LEVELS.values()])
    args = ['run'] + (['--loglevel', name] if name else []) + ['Talking']
    old = os.getcwd()
    loggers = [logging.getLogger(), logging.getLogger('crowddynamics')]
    kept = [(g, g.level, list(g.handlers), g.propagate) for g in loggers]
    options = np.get_printoptions()
    cli.run.commands.clear()
    live.append(1)
    try:
        os.chdir(d)
        cli.simulation_commands()
        res = invoke(c, args)
        c.check(res.exit_code == 0 and res.exception is None,
                'loglevel:failed', args, repr(res.exception), res.output)
        for g in loggers:
            for h in g.handlers:
                h.flush()
        text = ''
        for base, _, files in os.walk(os.path.join(d, '.logs')):
            for f in files:
                with open(os.path.join(base, f), encoding='utf8') as fp:
                    text += fp.read()
        got = [k for k in (10, 20, 30, 40, 50) if 'message-%d-' % k in text]
        c.equal(got, [k for k in (10, 20, 30, 40, 50) if k >= level],
                'logged', args)
    finally:
        live.clear()
        os.chdir(old)
        cli.run.commands.clear()
        np.set_printoptions(**options)
        for g, lev, handlers, propagate in kept:
            for h in g.handlers:
                if h not in handlers:
                    h.close()
            g.handlers[:] = handlers
            g.setLevel(lev)
            g.propagate = propagate
    c.state('level', name)
    c.nontrivial(name)
    c.sample((name, got))


@section('concat', 120, 6000)
def concat(c):
    r = c.rng
    d = os.path.realpath(c.tmpdir())
    sub = os.path.join(d, 'rec')
    os.mkdir(sub)
    names = r.sample(['agents', 'agents_b', 'a', 'data1', 'run_1', 'v1.5',
                      'agents.old', 'my data', '2017-05-06'],
                     r.choice([1, 2, 3]))
    rows = {}
    for n in names:
        co = cio.save_npy(sub, n)
        co.send(None)
        rows[n] = []
        for k in range(r.choice([1, 2, 12, 25])):
            m = r.choice([1, 2])
            for j in range(m):
                row = c.np.normal(size=(2, 3))
                co.send(row)
                rows[n].append(row)
                co.send(j == m - 1)
    n = r.choice(names)
    before = set(os.listdir(sub))
    old = os.getcwd()
    try:
        os.chdir(sub if r.random() < .5 else d)
        args = ['concat_npy' if 'concat_npy' in cli.main.commands
                else 'concat-npy', r.choice(['--basename', '-n']), n]
        if os.getcwd() != sub or r.random() < .3:
            args += [r.choice(['--directory', '-d']),
                     r.choice([sub, os.path.relpath(sub)])]
        res = invoke(c, args)
    finally:
        os.chdir(old)
    c.check(res.exit_code == 0 and res.exception is None, 'concat:failed',
            repr(res.exception), res.output)
    after = set(os.listdir(sub))
    c.equal(sorted(after - before), [n + '.npy'], 'written-files')
    c.check(not before - after, 'removed-files', before - after)
    got = np.load(os.path.join(sub, n + '.npy'))
    want = np.concatenate([x[np.newaxis] for x in rows[n]])
    c.check(got.reshape(-1).tobytes() == want.reshape(-1).tobytes(),
            'concatenation', got.shape, want.shape)
    c.check(got.size == want.size and got.dtype == want.dtype, 'shape')
    if len(rows[n]) > 1:
        c.nontrivial(names, n, len(rows[n]))
    c.count('chunks', len(rows[n]))
