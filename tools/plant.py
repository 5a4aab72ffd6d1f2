"""Development tool: plant bugs described in tools/plants.py.
  plant.py ID...    create /verif/seeded/ID from the description and verify it
  plant.py --run ID...  run this property's check against the bug (copy of /repo)
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def copy():
    d = tempfile.mkdtemp(prefix='plant')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d, d + '/repo'


def demo(repo, folder):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    p = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=repo,
                       env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode()[-600:]


def create(spec):
    i = spec['id']
    out = os.path.join(HERE, 'seeded', i)
    d, repo = copy()
    try:
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        for fn, old, new in spec['edits']:
            p = os.path.join(repo, 'crowddynamics', fn)
            s = open(p).read()
            assert s.count(old) == 1, (i, fn, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
            compile(open(p).read(), p, 'exec')
        diff = subprocess.check_output(
            ['git', '-C', repo, 'diff', '--no-color', '--', 'crowddynamics'])
        # the planted lines must be of the original repository
        with open(os.path.join(out, 'patch.diff'), 'wb') as fp:
            fp.write(diff)
        if '__pycache__' in diff.decode():
            raise SystemExit('pycache in diff')
        body = spec['demo']
        stubs = spec.get('stubs', ())
        with open(os.path.join(out, 'demo.py'), 'w') as fp:
            fp.write(body)
        if stubs:
            # stand-ins for the modules that are not installed
            shutil.copytree(os.path.join(HERE, 'shims'),
                            os.path.join(out, 'stubs'),
                            ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(out, 'demo.sh'), 'w') as fp:
            fp.write('''#!/bin/bash
# run with cwd = the repository; everything is written below a scratch folder
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD:$HERE/stubs"
SCRATCH=$(mktemp -d) || exit 1
trap 'rm -rf "$SCRATCH"' EXIT
export SCRATCH
%s -W ignore "$HERE/demo.py"
''' % PY)
        with open(os.path.join(out, 'meta.json'), 'w') as fp:
            json.dump(dict(property=spec['property'], needs=spec['needs'],
                           what_it_breaks=spec['breaks']), fp, indent=1)
            fp.write('\n')
        rc, text = demo(repo, out)
        ok1 = rc != 0
        t1 = text
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        rc, text = demo(repo, out)
        print(i, 'demo with bug fails:', ok1, '| unchanged passes:', rc == 0)
        if not ok1 or rc:
            print(t1, '\n---\n', text)
        print('   ', t1.strip().splitlines()[-1:] if t1.strip() else '')
    finally:
        shutil.rmtree(d)


def tests(repo):
    """The stable tests against the copy (same options as /opt/vp/test.sh)."""
    return subprocess.run(
        [PY, '-m', 'pytest', 'crowddynamics/core/tests/test_block_list.py',
         'crowddynamics/simulation/tests/test_base.py',
         'crowddynamics/tests/test_io.py', '-q', '-p', 'no:cacheprovider',
         '--noconftest', '-o', 'addopts=', '--benchmark-disable'], cwd=repo,
        env=dict(ENV, PYTHONPATH=repo), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)


def run(i, seeds=('1',)):
    out = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(out + '/meta.json'))
    d, repo = copy()
    try:
        subprocess.check_call(['git', '-C', repo, 'apply', out + '/patch.diff'])
        t = tests(repo)
        last = t.stdout.decode().strip().splitlines()[-1]
        rc0, _ = demo(repo, out)
        res = []
        for s in seeds:
            p = subprocess.run(
                [PY, '-B', 'run.py', meta['property']], cwd=HERE,
                env=dict(ENV, VERIF_REPO=repo, VERIF_SEED=s),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            txt = p.stdout.decode()
            mech = [l for l in txt.splitlines() if l.startswith('--- ')]
            res.append((p.returncode, mech[:2] or txt.splitlines()[-2:]))
        print('%-28s %s demo=%d tests[%s] %s' % (
            i, meta['property'], rc0, last[:40], res))
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    if args and args[0] == '--run':
        ids = args[1:] or sorted(os.path.basename(x) for x in
                                 glob.glob(HERE + '/seeded/*'))
        for i in ids:
            run(i)
        return
    from plants import PLANTS
    for spec in PLANTS:
        if not args or spec['id'] in args:
            create(spec)


main()
