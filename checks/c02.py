"""Histories of records and dump decisions; after every step the file's bytes
are compared with a model that parses them as CSV: header of the first record's
keys, one row per record sent, values as text at the time of sending. Non-trivial:
at least two dumps with rows in between."""
import csv
import io
import os
import pathlib
from collections import OrderedDict

import numpy as np

from crowddynamics import io as cio
from harness import section

RULE = __doc__
KEYS = ['iterations', 'time_tot', 'dt', 'inactive', 'target_0', 'name',
        'a,b', 'quo"te', 'ünï', 'new\nline', 'with space', '0', 'x;y', "'"]
TEXT = ['', ' ', 'a,b', 'say "hi"', 'line\nbreak', 'ünïcödé', "it's", 'tab\t',
        'cr\rlf', 'one\r\ntwo', '\r\n', '\r', '\\', ';', '0', '=1+1', ',', '"', '\n']


def value(c):
    r = c.rng
    k = r.randrange(8)
    if k == 0:
        return r.randint(-10 ** 9, 10 ** 9)
    if k == 1:
        return r.uniform(-1e6, 1e6)
    if k == 2:
        return np.float64(r.uniform(-1, 1))
    if k == 3:
        return np.int64(r.randint(0, 50))
    if k == 4:
        return r.random() < .5
    if k == 5:
        return ''.join(r.choice('abc,"\n é;') for _ in range(r.randint(1, 9)))
    if k == 6:
        return r.choice([1e-300, 0.1, 1e22, -0.0, float('inf')])
    return r.choice(TEXT)


def text(v):
    """What the csv module writes for a value: repr of floats, str otherwise."""
    return repr(float(v)) if isinstance(v, float) and \
        not isinstance(v, np.floating) else str(v)


def same_value(cell, v):
    if cell == text(v) or cell == str(v):
        return True
    if isinstance(v, (float, np.floating)):
        try:
            return float(cell) == float(v)
        except ValueError:
            return False
    return False


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as fp:
        return fp.read()


@section('history', 500, 20000)
def history(c):
    r = c.rng
    directory = c.tmpdir()
    base = r.choice(['data', 'metadata', 'a.b', 'x y', 'é', 'd_1'])
    path = os.path.join(directory, base + '.csv')
    co = c.call('start', cio.save_csv,
                directory if r.random() < .5 else pathlib.Path(directory),
                base)
    c.call('start', co.send, None)
    keys = r.sample(KEYS, r.randint(1, 5))
    record = OrderedDict((k, value(c)) for k in keys)
    model, dumped, dumps = [], 0, 0
    last = None
    reorder = r.random() < .3
    extra = r.random() < .3
    often = r.choice([.4, .4, .4, .05, .01])
    for _ in range(r.choice([1, 4, 12, 30]) if r.random() < .98 else 700):
        if r.random() < .5:
            for k in keys:              # the live dict is updated in place
                record[k] = value(c)
        else:
            order = list(keys)
            if reorder and r.random() < .5:
                r.shuffle(order)
            record = (OrderedDict if r.random() < .5 else dict)(
                (k, value(c)) for k in order)
        if extra and model and r.random() < .3:
            record['more'] = value(c)
        if model == [] and list(record) != keys:
            record = OrderedDict((k, record[k]) for k in keys)
        c.note('send', dict(record))
        c.call('send', co.send, record)
        model.append([record[k] for k in keys])
        c.check(read(path) == last, 'write-without-dump')
        if r.random() < .6:             # later changes do not matter
            record[r.choice(keys)] = 'changed later'
            if extra:                   # columns are those of the first record
                record[r.choice(['later', 'nodes', 'A'])] = value(c)
        dump = r.random() < often
        c.note('dump' if dump else 'no dump')
        c.call('dump', co.send, dump if r.random() < .7 else np.bool_(dump))
        c.count('sends')
        now = read(path)
        if not dump:
            c.check(now == last, 'write-without-dump')
            continue
        c.count('dumps')
        dumps += 1
        c.check(now is not None, 'no-file-after-dump')
        c.check(last is None or now.startswith(last), 'rewrote-former-text')
        last = now
        rows = list(csv.reader(io.StringIO(now.decode('utf-8'), newline='')))
        c.check(len(rows) >= 1, 'empty-file')
        c.equal(rows[0], keys, 'header')
        c.equal(len(rows) - 1, len(model), 'row-count')
        for k, (got, want) in enumerate(zip(rows[1:], model)):
            c.check(len(got) == len(want) and all(
                same_value(g, w) for g, w in zip(got, want)),
                'row-content', 'row', k, 'got', got, 'sent', want)
        c.count('rows_checked', len(model))
    if dumps >= 2 and len(model) > dumps:
        c.nontrivial(keys, len(model), dumps)
        c.state('history', keys, len(model), dumps)
    c.sample(dict(keys=keys, records=len(model), dumps=dumps))


@section('two-recorders', 60, 2000)
def two_recorders(c):
    """Interleaved recorders in one directory do not mix."""
    r = c.rng
    directory = c.tmpdir()
    names = r.sample(['a', 'b', 'ab', 'a_0'], 2)
    cos, models = [], []
    for n in names:
        co = c.call('start', cio.save_csv, directory, n)
        c.call('start', next, co)
        cos.append(co)
        models.append([[], 0])
    for k in range(r.randint(6, 24)):
        w = r.randrange(2)
        c.call('send', cos[w].send, {'who': names[w], 'k': k})
        dump = r.random() < .5
        c.call('dump', cos[w].send, dump)
        models[w][0].append([names[w], str(k)])
        if dump:
            models[w][1] = len(models[w][0])
    for n, (rows, done) in zip(names, models):
        data = read(os.path.join(directory, n + '.csv'))
        if not done:
            c.check(data is None or data == b'', 'write-without-dump')
            continue
        got = list(csv.reader(io.StringIO(data.decode(), newline='')))
        c.equal(got, [['who', 'k']] + rows[:done], 'mixed-recorders')
    if models[0][1] and models[1][1]:
        c.nontrivial(names, models)


@section('long', 3, 24)
def long_recording(c):
    """Tens of thousands of records, with and without dumps in between."""
    r = c.rng
    directory = c.tmpdir()
    co = c.call('start', cio.save_csv, directory, 'data')
    c.call('start', co.send, None)
    path = os.path.join(directory, 'data.csv')
    sent = 0
    record = OrderedDict(iterations=0, time_tot=0.0, note='')
    for n in [r.choice([1500, 9000]), 2, r.choice([20000, 70000])]:
        for k in range(n):
            record['iterations'] = sent
            record['time_tot'] = sent / 7.0
            record['note'] = 'x' * (sent % 5)
            co.send(record)
            co.send(k == n - 1)
            sent += 1
        c.count('sends', n)
        c.count('dumps')
        rows = list(csv.reader(io.StringIO(read(path).decode(), newline='')))
        c.equal(len(rows) - 1, sent, 'row-count', 'records between dumps', n)
        for k, row in enumerate(rows[1:]):
            c.check(int(row[0]) == k and float(row[1]) == k / 7.0 and
                    row[2] == 'x' * (k % 5), 'row-content', k, row)
    c.count('rows_checked', sent)
    c.nontrivial(sent)
    c.sample(sent)
