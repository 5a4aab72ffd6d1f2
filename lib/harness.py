"""Runner shared by all checks.

A check module defines sections with the ``@section`` decorator.  A section is
one workload with its monitor; it is executed for many cases, each with its own
random source derived from (property, seed, section, index), so any case can be
replayed alone.  Verdicts are three-valued: a monitor that sees the property
broken records a violation (exit 1), a workload that could not be driven or a
stand-in that lacks a feature is inconclusive (exit 2), otherwise the property
held on what was observed (exit 0).
"""
import contextlib
import hashlib
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))


class Violation(Exception):
    def __init__(self, mech, detail):
        Exception.__init__(self, mech)
        self.mech = mech
        self.detail = detail


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def in_repo(tb):
    """The innermost frames of the traceback run code under test."""
    found = False
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(REPO + os.sep):
            found = True
        tb = tb.tb_next
    return found


class Skip(Exception):
    """The generated case is outside the property (counted, not judged)."""


SECTIONS = {}
CASE_CPU = 60


def section(name, quick, thorough, min_nontrivial=None, weight=1.0):
    """Register a workload. ``quick``/``thorough``: number of cases."""
    def deco(fn):
        mod = fn.__module__
        SECTIONS.setdefault(mod, []).append(
            dict(name=name, quick=quick, thorough=thorough, fn=fn,
                 min_nontrivial=min_nontrivial, weight=weight))
        return fn
    return deco


def is_shim_failure(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if 'ShimMissing' in str(exc) or type(exc).__name__ in (
                'ShimMissing', 'OverlayError'):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def import_replay(prop, text):
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-import.json' % prop)
    with open(path, 'w') as fp:
        json.dump(dict(property=prop, mechanism='import', detail=text), fp)
    return path


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # repr of a broken object
        s = '<%s: %s>' % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...'


class Case(object):
    def __init__(self, run, sec, index):
        self.run = run
        self.tier = run.tier
        self.section = sec['name']
        self.index = index
        key = '%s/%d/%s/%d' % (run.prop, run.seed, sec['name'], index)
        self.rng = random.Random(key)
        import numpy as np
        self.np = np.random.RandomState(self.rng.getrandbits(32))
        # the code under test draws from the global sources
        np.random.seed(self.rng.getrandbits(32))
        random.seed(self.rng.getrandbits(64))
        self._sig = None
        self._tmp = None
        self.notes = []

    # -- workload helpers
    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case', dir=self.run.scratch)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def note(self, *parts):
        """Remember a step of the history; shown in the replay."""
        self.notes.append(' '.join(p if isinstance(p, str) else short(p)
                                   for p in parts))
        if len(self.notes) > 400:
            del self.notes[:100]

    def nontrivial(self, *signature):
        self._sig = hashlib.sha1(repr(signature).encode()).hexdigest()[:16]

    def count(self, name, n=1):
        self.run.counters[name] = self.run.counters.get(name, 0) + int(n)

    def state(self, name, *value):
        """Count distinct observed states under a name."""
        s = self.run.states.setdefault(name, set())
        if len(s) < 200000:
            s.add(hashlib.sha1(repr(value).encode()).hexdigest()[:12])

    def sample(self, obj):
        if len(self.run.samples) < 6:
            self.run.samples.append(short(obj, 700))

    def skip(self, why=''):
        raise Skip(why)

    # -- monitors
    def fail(self, mech, detail=''):
        raise Violation(mech, detail)

    def check(self, cond, mech, *detail):
        self.run.counters['monitor_evaluations'] = \
            self.run.counters.get('monitor_evaluations', 0) + 1
        if not cond:
            raise Violation(mech, ' '.join(
                d if isinstance(d, str) else short(d) for d in detail))

    def equal(self, got, want, mech, *detail):
        self.check(got == want, mech, 'got', short(got), 'expected',
                   short(want), *detail)

    def close(self, got, want, mech, rtol=1e-9, atol=1e-12, detail=''):
        import numpy as np
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        ok = g.shape == w.shape
        if ok:
            with np.errstate(all='ignore'):
                ok = bool(np.all((np.abs(g - w) <= atol + rtol * np.abs(w)) |
                                 (g == w) | (np.isnan(g) & np.isnan(w))))
        self.check(ok, mech, 'got', short(got), 'expected', short(want),
                   detail if isinstance(detail, str) else short(detail))

    def call(self, mech, fn, *args, **kwargs):
        """Call into the code under test; an exception breaks the property."""
        try:
            return fn(*args, **kwargs)
        except (Violation, Inconclusive, Skip, KeyboardInterrupt,
                MemoryError, CaseTimeout):
            raise
        except BaseException as e:
            if is_shim_failure(e):
                raise Inconclusive('stand-in: %s' % e)
            raise Violation(mech + ':raised', '%s: %s\n%s' % (
                type(e).__name__, e, traceback.format_exc()[-1800:]))

    def raises(self, exc, mech, fn, *args, **kwargs):
        """The call must be refused with ``exc``."""
        self.count('monitor_evaluations')
        try:
            r = fn(*args, **kwargs)
        except (Violation, Inconclusive, Skip, MemoryError, CaseTimeout):
            raise
        except exc as e:
            if is_shim_failure(e):
                raise Inconclusive('stand-in: %s' % e)
            return e
        except BaseException as e:
            if is_shim_failure(e):
                raise Inconclusive('stand-in: %s' % e)
            raise Violation(mech + ':wrong-error', '%s: %s instead of %s' % (
                type(e).__name__, e, exc))
        raise Violation(mech + ':not-refused', 'returned %s' % short(r))


def load_findings(prop):
    """Lines 'finding: property=Cxx mechanism=<m> <text>' of the file."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                if line.startswith('finding: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    m, _, text = rest.partition(' ')
                    assert m.startswith('mechanism='), line
                    out[m[len('mechanism='):]] = text.strip()
    return out


# Development only (tools/mutate.py): one worker that stops at once
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))

def unreadable(e):
    """Not trouble with the machine the check runs on."""
    return not isinstance(e, (MemoryError, OSError)) or \
        isinstance(e, FileNotFoundError)


class Run(object):
    def __init__(self, prop, tier, seed, module):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.module = module
        self.counters, self.states, self.samples = {}, {}, []
        self.findings = load_findings(prop)
        self.scratch = None

    def one(self, sec, index):
        """Run a case; returns (verdict, signature, mech, detail, notes)."""
        case = Case(self, sec, index)

        def alarm(signum, frame):
            raise CaseTimeout('more than %d s of cpu time' % CASE_CPU)
        signal.signal(signal.SIGPROF, alarm)
        try:
            try:
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
                sec['fn'](case)
                return 'ok', case._sig, None, None, None
            except CaseTimeout as e:
                if in_repo(e.__traceback__):
                    return ('violation', case._sig, 'did-not-terminate',
                            traceback.format_exc()[-2500:], case.notes)
                return 'inconclusive', None, None, str(e), case.notes
            except Violation as v:
                return 'violation', case._sig, v.mech, v.detail, case.notes
            except Skip:
                return 'skip', None, None, None, None
            except Inconclusive as e:
                return 'inconclusive', None, None, str(e), case.notes
            except Exception as e:
                if is_shim_failure(e):
                    return ('inconclusive', None, None, 'stand-in: %s' % e,
                            case.notes)
                if in_repo(e.__traceback__):
                    return ('violation', case._sig, 'unexpected-exception',
                            '%s: %s\n%s' % (type(e).__name__, e,
                                            traceback.format_exc()[-2500:]),
                            case.notes)
                if unreadable(e):
                    # The oracles digest every result of the right form, so
                    # one that they cannot read has not got that form.
                    return ('violation', case._sig, 'unreadable-result',
                            '%s: %s\n%s' % (type(e).__name__, e,
                                            traceback.format_exc()[-2500:]),
                            case.notes)
                return ('inconclusive', None, None, 'harness: %s\n%s' % (
                    e, traceback.format_exc()[-2500:]), case.notes)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            case.cleanup()

    def worker(self, sections, k, jobs, deadline):
        res = []
        for sec in sections:
            n = sec[self.tier]
            r = dict(name=sec['name'], cases=0, skipped=0, sigs=set(),
                     violations=[], inconclusive=[], known={}, cut=False,
                     wall=0.0)
            t0 = time.time()
            limit = min(deadline, t0 + sec['limit'])
            for i in range(k, n, jobs):
                if time.time() > limit:
                    r['cut'] = True
                    break
                verdict, sig, mech, detail, notes = self.one(sec, i)
                r['cases'] += 1
                if sig is not None:
                    r['sigs'].add(sig)
                if verdict == 'skip':
                    r['skipped'] += 1
                elif verdict == 'violation':
                    if mech in self.findings:
                        r['known'][mech] = r['known'].get(mech, 0) + 1
                        continue
                    r['violations'].append((i, mech, detail, notes))
                    if len(r['violations']) >= 3 or FAILFAST:
                        break
                elif verdict == 'inconclusive':
                    r['inconclusive'].append((i, detail))
                    if len(r['inconclusive']) >= 5:
                        break
            r['wall'] = time.time() - t0
            r['sigs'] = sorted(r['sigs'])
            res.append(r)
            if FAILFAST and r['violations']:
                break
        return dict(sections=res, counters=self.counters,
                    states={k_: sorted(v) for k_, v in self.states.items()},
                    samples=self.samples)


def run_forked(run, sections, jobs, deadline):
    if jobs == 1:
        return [run.worker(sections, 0, 1, deadline)]
    sys.stdout.flush()
    sys.stderr.flush()
    out, pids = [], {}
    for k in range(jobs):
        path = os.path.join(run.scratch, 'worker%d.json' % k)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                tmp = tempfile.mkdtemp(prefix='w', dir=run.scratch)
                run.scratch = tmp
                data = run.worker(sections, k, jobs, deadline)
                with open(path, 'w') as fp:
                    json.dump(data, fp)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = path
    hard = deadline + 60
    left = dict(pids)
    while left:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in left:
            path = left.pop(pid)
            if status != 0 or not os.path.exists(path):
                out.append(None)
            else:
                with open(path) as fp:
                    out.append(json.load(fp))
            continue
        if time.time() > hard:
            for q in left:
                os.kill(q, signal.SIGKILL)
            for q in left:
                os.waitpid(q, 0)
                out.append(None)
            break
        if pid == 0:
            time.sleep(0.02)
    return out


def main(prop, module, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    only = None
    jobs = None
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '--replay':
            replay = next(it)
        elif a == '--section':
            only = next(it)
        elif a == '--jobs':
            jobs = int(next(it))
        else:
            raise SystemExit('unknown argument ' + a)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    run = Run(prop, tier, seed, module)
    secs = [dict(s) for s in SECTIONS[module.__name__]]
    if replay:
        with open(replay) as fp:
            rep = json.load(fp)
        run = Run(prop, rep['tier'], rep['seed'], module)
        run.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        try:
            sec = [s for s in secs if s['name'] == rep['section']][0]
            v = run.one(sec, rep['index'])
        finally:
            shutil.rmtree(run.scratch, ignore_errors=True)
        print('replay: %s %s\n%s' % (v[0], v[2], v[3]))
        for n in v[4] or ():
            print('   ', n)
        return 1 if v[0] == 'violation' else 0 if v[0] in ('ok', 'skip') else 2
    if only:
        secs = [s for s in secs if s['name'] == only]
    budget = getattr(module, 'BUDGET', {'quick': 90, 'thorough': 780})[tier]
    if FAILFAST:
        jobs, budget = 1, 4 * budget
    wsum = sum(s['weight'] for s in secs)
    for s in secs:
        s['limit'] = max(10.0, 1.0 * budget * s['weight'] / wsum)
    if jobs is None:
        jobs = getattr(module, 'JOBS', {'quick': 4, 'thorough': 8})[tier]
    run.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        parts = run_forked(run, secs, jobs, t0 + budget)
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)

    merged = {s['name']: dict(cases=0, skipped=0, sigs=set(), violations=[],
                              inconclusive=[], known={}, cut=False, wall=0.0)
              for s in secs}
    counters, states, samples = {}, {}, []
    dead = sum(1 for p in parts if p is None)
    for p in parts:
        if p is None:
            continue
        for k, v in p['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in p['states'].items():
            states.setdefault(k, set()).update(v)
        samples.extend(p['samples'][:3])
        for r in p['sections']:
            m = merged[r['name']]
            m['cases'] += r['cases']
            m['skipped'] += r['skipped']
            m['sigs'].update(r['sigs'])
            m['violations'].extend(r['violations'])
            m['inconclusive'].extend(r['inconclusive'])
            m['cut'] = m['cut'] or r['cut']
            m['wall'] = max(m['wall'], r['wall'])
            for k, v in r['known'].items():
                m['known'][k] = m['known'].get(k, 0) + v

    violations = []
    problems = []
    if dead:
        problems.append('%d worker(s) died or hung' % dead)
    for s in secs:
        m = merged[s['name']]
        for v in m['violations']:
            violations.append((s['name'],) + tuple(v))
        # single cases beyond the reach of a stand-in are skipped cases; they
        # stay in the evidence file
        rare = len(m['inconclusive']) <= max(1, m['cases'] // 100) and all(
            str(d).startswith('stand-in:') for _, d in m['inconclusive'])
        for i, d in m['inconclusive'][:0 if rare else 3]:
            problems.append('%s[%d]: %s' % (s['name'], i, d))
        need = s['min_nontrivial']
        if need is None:
            need = max(1, s[tier] // 10)
        if m['cut']:
            need = min(need, 1)
        if len(m['sigs']) < need and not m['violations']:
            problems.append('%s: only %d distinct non-trivial cases observed '
                            '(need %d)' % (s['name'], len(m['sigs']), need))
    cov = dict(
        evaluations=sum(m['cases'] for m in merged.values()),
        distinct_nontrivial=sum(len(m['sigs']) for m in merged.values()),
        rule=getattr(module, 'RULE', (module.__doc__ or '').strip()),
        samples=samples[:8] or ['(no sample recorded)'],
        observed=counters,
        distinct_states={k: len(v) for k, v in states.items()},
        sections={n: dict(cases=m['cases'], skipped=m['skipped'],
                          distinct_nontrivial=len(m['sigs']),
                          violations=len(m['violations']),
                          inconclusive=len(m['inconclusive']),
                          known_findings_observed=m['known'],
                          stopped_by_time_limit=m['cut'],
                          wall_s=round(m['wall'], 2))
                  for n, m in merged.items()},
        workers=jobs,
    )
    if problems:
        cov['inconclusive'] = problems[:10]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(violations),
              assumptions=list(getattr(module, 'ASSUMPTIONS', ())) + [
                  'numba kernels run interpreted; numba, shapely, scipy, '
                  'skfmm, cell_lists, skimage, matplotlib and bokeh are the '
                  'stand-ins of /verif/shims (not installed here)'])
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write('\n')
    for mech, text in sorted(run.findings.items()):
        n = sum(m['known'].get(mech, 0) for m in merged.values())
        print('KNOWN-FINDING: property=%s %s (%s; observed %d times)' % (
            prop, text, mech, n))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d monitor '
          'evaluations, %.1f s' % (
              prop, tier, seed, cov['evaluations'],
              cov['distinct_nontrivial'],
              counters.get('monitor_evaluations', 0), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for n, m in merged.items():
            print('   %-28s cases %5d skipped %4d nontrivial %5d  %.1fs%s' % (
                n, m['cases'], m['skipped'], len(m['sigs']), m['wall'],
                ' CUT' if m['cut'] else ''))
    rdir = os.path.join(VERIF, 'replays')
    shown = set()
    for name, i, mech, detail, notes in violations:
        if mech in shown:
            continue
        shown.add(mech)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d-%d.json' % (prop, name, seed, i))
        with open(path, 'w') as fp:
            json.dump(dict(property=prop, tier=tier, seed=seed, section=name,
                           index=i, mechanism=mech, detail=detail,
                           history=notes), fp, indent=1)
        print('--- %s/%s case %d: %s' % (prop, name, i, mech))
        print(str(detail)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if problems:
        for p in problems[:10]:
            print('INCONCLUSIVE property=%s %s' % (prop, p))
        return 2
    return 0
