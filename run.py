"""Usage: /opt/venv/bin/python -B run.py C08 [--tier quick|thorough] [--seed N]
[--section NAME] [--jobs N] [--replay FILE]"""
import importlib
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONUTF8'] = '1'
    os.environ['LC_ALL'] = os.environ['LANG'] = 'C.UTF-8'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
for p in (REPO, os.path.join(HERE, 'shims'), os.path.join(HERE, 'lib')):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
sys.path.insert(1, HERE)
import logging
logging.getLogger().addHandler(logging.NullHandler())
warnings.simplefilter('ignore')


def go():
    import harness
    prop = sys.argv[1]
    try:
        # third party first, so that their absence is ours, not the tree's
        import vcompat
        vcompat.install()
        import numpy, numba, shapely.geometry, scipy.stats, traittypes  # noqa
        import numpy as np
        np.seterr(all='ignore')
    except Exception:
        import traceback
        traceback.print_exc()
        print('INCONCLUSIVE property=%s environment' % prop)
        return 2
    try:
        module = importlib.import_module('checks.' + prop.lower())
    except Exception as e:
        import traceback
        traceback.print_exc()
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if last.startswith(REPO + os.sep) and not (
                isinstance(e, ImportError) or harness.is_shim_failure(e)):
            # The library itself cannot be loaded
            path = harness.import_replay(prop, traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('INCONCLUSIVE property=%s import: %s' % (prop, e))
        return 2
    import crowddynamics
    assert os.path.dirname(os.path.dirname(os.path.abspath(
        crowddynamics.__file__))) == REPO, crowddynamics.__file__
    return harness.main(prop, module, sys.argv[2:])


if __name__ == '__main__':
    code = go()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
