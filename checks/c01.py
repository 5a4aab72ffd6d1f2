"""Histories of send / edit-in-place / dump against a model that remembers a
private copy of every array at the moment it was sent. After every step the
directory is re-read: earlier files must be byte-identical, nothing may appear
without a dump, and after every dump the loaders must give the model's rows.
Foreign files are mixed in. Non-trivial: at least two dumps."""
import hashlib
import os
import pathlib

import numpy as np

from crowddynamics import io as cio
from harness import section

RULE = __doc__
STRUCT = np.dtype([('active', np.bool_), ('target', np.int64),
                   ('position', np.float64, 2), ('mass', np.float64)])
BASENAMES = ['agents', 'data', 'a', 'n', 'y', 'p', 'npy', 'run1', 'run_1',
             'run10', '7', '007', '1_2', 'sim.v2', 'a+b', 'x[1]', '(n)', 'é',
             'agents_', '_', 'with space', 'a_0', 'spy', 'nyp', '.hidden',
             'Agents', 'step0', 'out.npy', 'a{b}', '100%', '-n', 'a*']


def digest(directory):
    out = {}
    for root, _, files in os.walk(directory):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fp:
                out[p] = hashlib.sha1(fp.read()).hexdigest()
    return out


def make_array(c, spec):
    dt, shape = spec
    if dt is STRUCT:
        a = np.zeros(shape, dtype=dt)
        a['active'] = c.np.randint(0, 2, shape)
        a['target'] = c.np.randint(-9, 10 ** 6, shape)
        a['position'] = c.np.normal(size=shape + (2,))
        a['mass'] = c.np.normal(size=shape)
        return a
    if dt == np.float64:
        a = c.np.normal(size=shape)
        if a.size and c.rng.random() < .2:
            a.flat[0] = c.rng.choice([np.nan, np.inf, -0.0])
        return a
    return c.np.randint(-1000, 1000, shape).astype(dt)


def edit(c, a):
    if a.dtype == STRUCT:
        a['position'] += 1.0
        a['target'] -= 3
        a['active'] ^= True
    elif a.dtype == np.bool_:
        a ^= True
    else:
        a += 1


def make_foreign(c, directory, basename, others):
    r = c.rng
    names = []
    cand = [basename + '.npy', basename + '_final.npy', basename + '_.npy',
            basename + '_0.txt', basename + '_1.npy.tmp', basename + '0.npy',
            'x' + basename + '_0.npy', basename + 'x_0.npy',
            basename + '_x_0.npy', basename + '_3_1.npy', 'zzz_0.npy',
            basename + '_-1.npy', basename + '_1.5.npy', basename,
            basename[:-1] + '_0.npy', basename + '_0.csv', 'notes.npy',
            basename.upper() + 'Q_2.npy']
    for name in r.sample(cand, r.randint(0, 6)):
        path = os.path.join(directory, name)
        if os.path.exists(path) or name in ('_0.npy',):
            continue
        # never a file that a recorder of this test would own
        if any(name.startswith(b + '_') and name[len(b) + 1:-4].isdigit()
               and name.endswith('.npy') for b in [basename] + others):
            continue
        if r.random() < .5:
            with open(path, 'wb') as fp:
                np.save(fp, c.np.normal(size=(2, 2)))
        else:
            with open(path, 'wb') as fp:
                fp.write(b'not an array')
        names.append(name)
    return names


def same(a, b):
    if a.dtype != b.dtype and a.dtype.names is None:
        # plain numbers of another type that holds them
        return a.shape == b.shape and np.array_equal(
            np.where(a == a, a, 9e99), np.where(b == b, b, 9e99)) and \
            np.result_type(a, b) == a.dtype
    return a.dtype == b.dtype and a.shape == b.shape and \
        a.tobytes() == b.tobytes()


class Recorder(object):
    def __init__(self, c, directory, basename, spec):
        self.c, self.directory, self.basename = c, directory, basename
        self.spec = spec
        # arrays of different types and numbers of rows in one recording
        self.mixed = len(spec[1]) == 2 and c.rng.random() < .5
        d = directory if c.rng.random() < .5 else pathlib.Path(directory)
        self.co = c.call('start', cio.save_npy, d, basename)
        if c.rng.random() < .5:
            c.call('start', self.co.send, None)
        else:
            c.call('start', next, self.co)
        self.pending, self.chunks = [], []
        self.live = make_array(c, spec)

    def step(self, force_dump=None):
        c, r = self.c, self.c.rng
        if r.random() < .5:
            edit(c, self.live)          # one live array, edited in place
        else:
            if self.mixed:
                self.spec = (r.choice([np.float64, np.int64, np.bool_]),
                             (r.randint(0, 3), self.spec[1][-1]))
            self.live = make_array(c, self.spec)
        before = digest(self.directory)
        kind = r.randrange(4)
        if kind == 0:                   # a view of rows of a larger array
            big = np.zeros((len(self.live) + 2,) + self.live.shape[1:],
                           dtype=self.live.dtype)
            big[1:-1] = self.live
            self.live = big[1:-1]
        sent = self.live
        if kind == 1:                   # that only its owner can change
            sent = sent.view()
            sent.flags.writeable = False
        elif kind == 2 and r.random() < .3:
            sent = np.asfortranarray(self.live)
            self.live = sent
        c.note('send', self.basename)
        c.call('send', self.co.send, sent)
        self.pending.append(np.array(sent, copy=True))
        mid = digest(self.directory)
        c.check(mid == before, 'write-without-dump', 'files changed by a send')
        edited = r.random() < .6
        if edited:
            edit(c, self.live)
            c.note('caller edits the array in place')
        dump = r.random() < .35 if force_dump is None else force_dump
        flag = dump if r.random() < .6 else \
            (np.bool_(dump) if r.random() < .5 else int(dump))
        c.note('dump' if dump else 'no dump')
        c.call('dump', self.co.send, flag)
        after = digest(self.directory)
        c.count('sends')
        if not dump:
            c.check(after == before, 'write-without-dump',
                    'files changed although no dump was asked')
            return
        c.count('dumps')
        changed = [p for p in before if after.get(p) != before[p]]
        c.check(not changed, 'earlier-file-changed', changed)
        new = [p for p in after if p not in before]
        c.check(len(new) == 1, 'files-per-dump', 'new files', new)
        want = np.vstack(self.pending)
        got = c.call('load-file', np.load, new[0])
        c.check(same(got, want), 'chunk-content', 'file', new[0], 'holds', got,
                'sent', want)
        self.chunks.append(want)
        self.pending = []

    def verify(self):
        c = self.c
        got = c.call('load', lambda: list(cio.load_npy(self.directory,
                                                       self.basename)))
        c.equal(len(got), len(self.chunks), 'chunk-count', 'basename',
                self.basename, 'files', sorted(os.listdir(self.directory)))
        for k, (g, w) in enumerate(zip(got, self.chunks)):
            c.check(same(g, w), 'chunk-order-or-content', 'chunk', k, 'got', g,
                    'sent', w)
        idx = c.call('find', lambda: list(cio.find_npy_files(
            self.directory, self.basename)))
        c.equal(sorted(int(i) for i, _ in idx), list(range(len(self.chunks))),
                'indices')
        c.check(all(os.path.exists(p) for _, p in idx), 'found-paths', idx)
        if self.chunks:
            cat = c.call('concatenated', cio.load_npy_concatenated,
                         self.directory, self.basename)
            c.check(same(cat, np.vstack(self.chunks)), 'concatenated',
                    'got', cat.shape, 'want', np.vstack(self.chunks).shape)
        c.count('verifications')


def new_spec(c):
    r = c.rng
    dt = r.choice([STRUCT, STRUCT, np.float64, np.int64, np.bool_])
    shape = (r.randint(1, 4),) if dt is STRUCT or r.random() < .6 else \
        (r.randint(1, 3), r.randint(1, 3))
    return dt, shape


@section('history', 260, 9000)
def history(c):
    r = c.rng
    directory = os.path.join(c.tmpdir(), r.choice(['d', 'run_0', 'a{b}c',
                                                   'x.npy']))
    os.makedirs(directory)
    names = r.sample(BASENAMES, r.choice([1, 1, 2, 3]))
    if r.random() < .3 and len(names) > 1:
        names[1] = names[0] + r.choice(['1', '_1', 'x', '_'])
    foreign = make_foreign(c, directory, names[0], names[1:])
    c.note('foreign files', foreign)
    recs = [Recorder(c, directory, n, new_spec(c)) for n in names]
    for _ in range(r.choice([3, 8, 20, 40])):
        rec = r.choice(recs)
        rec.step()
        if r.random() < .1:
            rec.verify()
            r.choice(recs).verify()
    for rec in recs:
        rec.verify()
    if r.random() < .3:                 # a recording that was copied about
        for p in digest(directory):
            t = r.uniform(1e9, 1.6e9)
            os.utime(p, (t, t))
        for rec in recs:
            rec.verify()
    if max(len(x.chunks) for x in recs) >= 2:
        c.nontrivial(names, [len(x.chunks) for x in recs], foreign)
        c.state('history', names, [len(x.chunks) for x in recs])
    c.sample(dict(basenames=names, foreign=foreign,
                  chunks=[len(x.chunks) for x in recs]))


@section('many-chunks', 6, 200)
def many_chunks(c):
    """More than ten (and more than a hundred) files: numeric, not text order."""
    directory = c.tmpdir()
    name = c.rng.choice(BASENAMES)
    rec = Recorder(c, directory, name, (np.int64, (2,)))
    n = c.rng.choice([11, 25, 101, 113])
    for _ in range(n):
        rec.step(force_dump=True)
    rec.verify()
    c.nontrivial(name, n)
    c.sample(dict(basename=name, chunks=n))


@section('long-chunk', 3, 24)
def long_chunk(c):
    """Thousands of arrays between two dumps: as many simulations of hours."""
    r = c.rng
    directory = c.tmpdir()
    name = r.choice(BASENAMES)
    co = c.call('start', cio.save_npy, directory, name)
    c.call('start', co.send, None)
    live = np.zeros((r.choice([1, 2]), 2))
    total = []
    for n in [r.choice([1100, 5000]), 3, r.choice([17000, 66000])]:
        first = live[0, 0]
        for k in range(n):
            live += 1
            co.send(live)
            co.send(k == n - 1)
        want = np.repeat(first + 1 + np.arange(n), live.shape[0])
        total.append(np.stack([want, want], axis=1))
        c.count('sends', n)
        c.count('dumps')
        got = c.call('load', lambda: list(cio.load_npy(directory, name)))
        c.equal([len(x) for x in got], [len(x) for x in total], 'chunk-length',
                'sends between dumps', n)
        for g, w in zip(got, total):
            c.check(np.array_equal(g, w), 'chunk-content', 'sends', n)
    c.nontrivial(name, [len(x) for x in total])
    c.sample([len(x) for x in total])
