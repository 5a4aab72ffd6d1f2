"""Generated specifications and configuration files with any subset of values
missing, mistyped or out of bounds. The oracle is a table of check / raw text /
validity / converted value written independently of configobj. Non-trivial: a
file with several values of which at least one is invalid and one valid, or a
fully valid file with defaults filled in."""
import os
from collections import OrderedDict

from crowddynamics import config as cfg
from crowddynamics.exceptions import ValidationError
from harness import section

RULE = __doc__


def gen(c):
    """(spec text, raw text or None, valid, converted)."""
    r = c.rng
    kind = r.choice(['int', 'int', 'float', 'float', 'bool', 'option', 'string',
                     'string_list', 'float_list'])
    default = r.random() < .25
    bad = r.random() < c.p_bad
    missing = r.random() < (.5 if default else .25 * c.p_bad)
    if kind == 'int':
        lo, hi = sorted(r.sample(range(-50, 50), 2))
        form = r.randrange(4)
        args = {0: 'min=%d, max=%d' % (lo, hi), 1: 'min=%d' % lo,
                2: 'max=%d' % hi, 3: ''}[form]
        v = r.choice([lo, hi, r.randint(lo, hi)])
        spec, raw, conv = 'integer(%s' % args, str(v), v
        bads = ['abc', '1.5', '']
        if form in (0, 1):
            bads += [str(lo - 1)] * 3
        if form in (0, 2):
            bads += [str(hi + 1)] * 3
        dflt, dconv = str(v), v
    elif kind == 'float':
        lo, hi = sorted([round(r.uniform(-9, 9), 2), round(r.uniform(-9, 9), 2)])
        hi += .5
        form = r.randrange(4)
        args = {0: 'min=%r, max=%r' % (lo, hi), 1: 'min=%r' % lo,
                2: 'max=%r' % hi, 3: ''}[form]
        v = r.choice([lo, hi, round(r.uniform(lo, hi), 3)])
        spec, raw, conv = 'float(%s' % args, repr(v), v
        if r.random() < .2:
            raw, conv = '%e' % v, float('%e' % v)
            if not lo <= conv <= hi:
                raw, conv = repr(v), v
        bads = ['abc', 'one', '']
        if form in (0, 1):
            bads += [repr(lo - .01)] * 3
        if form in (0, 2):
            bads += [repr(hi + .01)] * 3
        dflt, dconv = repr(v), v
    elif kind == 'bool':
        raw = r.choice(['True', 'False', 'true', 'off', 'on', '1', '0', 'yes',
                        'no'])
        conv = raw.lower() in ('true', 'on', '1', 'yes')
        spec, bads, dflt, dconv = 'boolean(', ['maybe', '2', 'tru'], 'True', True
    elif kind == 'option':
        opts = r.sample(['red', 'green', 'blue', 'leader', 'herding'], 3)
        raw = conv = r.choice(opts)
        spec = 'option(%s' % ', '.join('"%s"' % o for o in opts)
        bads = ['purple', opts[0].upper(), opts[0] + 'x']
        dflt, dconv = '"%s"' % opts[0], opts[0]
    elif kind == 'string':
        form = r.randrange(2)
        spec = 'string(' + ('' if form else 'min=2, max=6')
        raw = conv = r.choice(['ab', 'hello', 'x_y'])
        bads = ['a', 'toolongtext'] if not form else None
        dflt, dconv = '"abc"', 'abc'
    elif kind == 'string_list':
        spec, raw, conv = 'string_list(min=1', 'a, b', ['a', 'b']
        bads = None
        dflt, dconv = 'list("p", "q")', ['p', 'q']
    else:
        spec, raw, conv = 'float_list(', '1.5, 2, -3e1', [1.5, 2.0, -30.0]
        bads = ['1.5, x', 'a, 2']
        dflt, dconv = 'list(1.0, 2.0)', [1.0, 2.0]
    if default:
        spec += (', ' if not spec.endswith('(') else '') + 'default=' + dflt
    spec += ')'
    if missing:
        return spec, None, default, dconv
    if bad and bads:
        b = r.choice(bads)
        return spec, '""' if b == '' else b, False, None
    return spec, raw, True, conv


def build(c):
    r = c.rng
    c.p_bad = r.choice([0.0, 0.0, .1, .3, 1.0])
    spec_lines, conf_lines, want, verdicts, raw_want = [], [], {}, [], {}
    many = False

    def keys(prefix, target, raws, n, skip=False):
        for k in range(n):
            name = '%s%d' % (prefix, k)
            s, raw, ok, conv = gen(c)
            spec_lines.append('%s = %s' % (name, s))
            if skip:
                raw, ok = None, 'default=' in s
                conv = None
            if raw is not None:
                conf_lines.append('%s = %s' % (name, raw))
                raws[name] = raw
            if skip and ok:
                target[name] = SKIPPED
            else:
                target[name] = conv
            verdicts.append((name, s, raw, ok))
    keys('top', want, raw_want, r.choice([0, 1, 3]))
    for s in range(r.choice([0, 1, 2, 3])):
        sec = 'section %d' % s if r.random() < .3 else 'sec%d' % s
        spec_lines.append('[%s]' % sec)
        absent = r.random() < .15 * (c.p_bad > 0)
        if not absent:
            conf_lines.append('[%s]' % sec)
        want[sec], raw_want[sec] = {}, {}
        keys('v', want[sec], raw_want[sec], r.choice([1, 2, 4]), absent)
        if absent:
            raw_want.pop(sec)
        elif r.random() < .3:
            spec_lines.append('[[deep]]')
            conf_lines.append('[[deep]]')
            want[sec]['deep'], raw_want[sec]['deep'] = {}, {}
            keys('d', want[sec]['deep'], raw_want[sec]['deep'], 2)
    if r.random() < .4:
        many = True
        spec_lines.append('[__many__]')
        specs = []
        for k in range(r.choice([1, 3])):
            lo, hi = sorted(r.sample(range(0, 40), 2))
            specs.append(('m%d' % k, lo, hi))
            spec_lines.append('m%d = float(min=%d, max=%d)' % (k, lo, hi))
        for s in range(r.choice([0, 1, 3])):
            sec = 'any%d' % s
            conf_lines.append('[%s]' % sec)
            want[sec], raw_want[sec] = {}, {}
            for name, lo, hi in specs:
                mode = r.random()
                if mode < c.p_bad * .2:
                    verdicts.append((name, 'many', None, False))
                    continue
                if mode < c.p_bad * .6:
                    raw = r.choice([str(lo - 1), str(hi + 1), 'word'])
                    verdicts.append((name, 'many', raw, False))
                    want[sec][name] = None
                else:
                    v = r.choice([lo, hi, round(r.uniform(lo, hi), 3)])
                    raw = repr(v)
                    want[sec][name] = float(v)
                    verdicts.append((name, 'many', raw, True))
                conf_lines.append('%s = %s' % (name, raw))
                raw_want[sec][name] = raw
    return spec_lines, conf_lines, want, raw_want, verdicts, many


SKIPPED = object()


def same(got, want):
    if want is SKIPPED:
        return True
    if isinstance(want, dict):
        return hasattr(got, 'keys') and set(got.keys()) == set(want) and \
            all(same(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and \
            all(same(a, b) for a, b in zip(got, want))
    return type(got) is type(want) and got == want


@section('accept-iff-valid', 700, 30000)
def accept(c):
    r = c.rng
    spec, conf, want, raw_want, verdicts, many = build(c)
    d = c.tmpdir()
    sp, cf = os.path.join(d, 'spec.cfg'), os.path.join(d, 'conf.cfg')
    # top level keys must precede sections in both files (they do)
    with open(sp, 'w') as fp:
        fp.write('\n'.join(spec) + '\n')
    with open(cf, 'w') as fp:
        fp.write('\n'.join(conf) + '\n')
    c.note('spec', spec)
    c.note('conf', conf)
    valid = all(v[3] for v in verdicts)
    if valid:
        got = c.call('load', cfg.load_config, cf, sp)
        c.check(same(got, want), 'converted-values', 'got', dict(got),
                'expected', want)
        c.count('accepted')
    else:
        c.raises(ValidationError, 'invalid-accepted', cfg.load_config, cf,
                 configspec=sp)
        c.count('refused')
        if any(v[3] for v in verdicts):
            c.count('refused_partially_valid')
    # without a specification: raw text
    raw = c.call('load-raw', cfg.load_config, cf)
    ok = same_raw(raw, raw_want)
    c.check(ok, 'raw-values', 'got', dict(raw), 'expected', raw_want)
    if len(verdicts) > 1:
        c.nontrivial(spec, conf)
    c.sample(dict(spec=spec, conf=conf, valid=valid))


def same_raw(got, want):
    if isinstance(want, dict):
        return hasattr(got, 'keys') and set(got.keys()) == set(want) and \
            all(same_raw(got[k], want[k]) for k in want)
    if ',' in want:
        return got == [x.strip() for x in want.split(',')]
    return got == want.strip('"')


@section('shipped', 60, 2000)
def shipped(c):
    """The shipped body types are valid; every single-value corruption of them
    is refused."""
    r = c.rng
    got = c.call('load', cfg.load_config, cfg.BODY_TYPES_CFG,
                 cfg.BODY_TYPES_CFG_SPEC)
    c.check(len(got) >= 1, 'no-body-types')
    for name, values in got.items():
        c.check(all(type(v) is float for v in values.values()),
                'body-type-values', name, dict(values))
        for k, v in values.items():
            c.check(v >= 0 and (not k.startswith('ratio') or v <= 1),
                    'body-type-bounds', name, k, v)
    body = r.choice(list(got))
    key = r.choice(list(got[body]))
    bad = r.choice(['-0.001', '-1e3', 'tall', ''] +
                   (['1.01', '7'] if key.startswith('ratio') else []))
    remove = r.random() < .25
    lines, sec = [], None
    with open(cfg.BODY_TYPES_CFG) as fp:
        for line in fp.read().splitlines():
            if line.strip().startswith('['):
                sec = line.strip()[1:-1]
            if sec == body and line.split('=')[0].strip() == key:
                if remove:
                    continue
                line = '%s = %s' % (key, bad or '""')
            lines.append(line)
    path = os.path.join(c.tmpdir(), 'body.cfg')
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines))
    c.note('corrupt', body, key, 'removed' if remove else bad)
    c.raises(ValidationError, 'corrupt-body-type-accepted', cfg.load_config,
             path, cfg.BODY_TYPES_CFG_SPEC)
    c.nontrivial(body, key, remove, bad)


@section('missing-file', 10, 50)
def missing(c):
    d = c.tmpdir()
    sp = os.path.join(d, 's.cfg')
    with open(sp, 'w') as fp:
        fp.write('a = integer(min=0)\nb = float(default=1.5)\n')
    c.raises(ValidationError, 'missing-value-accepted', cfg.load_config,
             os.path.join(d, 'none.cfg'), sp)
    with open(sp, 'w') as fp:
        fp.write('b = float(default=1.5)\n')
    got = c.call('load', cfg.load_config, os.path.join(d, 'none.cfg'), sp)
    c.equal(got['b'], 1.5, 'default-filled')
    c.nontrivial(c.index)
