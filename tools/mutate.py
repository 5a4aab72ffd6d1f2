"""Development tool: sensitivity of the checks to small random edits.

  mutate.py MODULE[,MODULE] [--jobs N] [--max N] [--out FILE]

Every mutant is one small edit (an operator, a constant, a branch, a dropped
statement) of one module, in a copy of /repo. Mutants that the stable tests
reject are put aside; the checks named for the module run on the others until
one of them reports a violation. Survivors are listed.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = '/verif'
PY = '/opt/venv/bin/python'
CHECKS = {
    'io.py': 'C01 C02 C03 C04',
    'core/block_list.py': 'C08',
    'utils.py': 'C06',
    'config.py': 'C05 C06',
    'exceptions.py': 'C06 C05',
    'cli.py': 'C07',
    'simulation/base.py': 'C09 C10',
    'simulation/multiagent.py': 'C10 C11',
    'simulation/agents.py': 'C13 C14 C12 C15 C24',
    'simulation/logic.py': 'C35 C36 C30 C28 C29 C19 C04 C22 C21 C25 C23 C24',
    'simulation/field.py': 'C34 C28 C27 C35 C36',
    'traits.py': 'C32 C12 C07',
    'visualizations.py': 'C33',
    'core/vector2D.py': 'C16',
    'core/distance.py': 'C17',
    'core/geom2D.py': 'C18 C19',
    'core/geometry.py': 'C18 C27 C03 C34',
    'core/evacuation.py': 'C19',
    'core/motion/power_law.py': 'C20',
    'core/motion/contact.py': 'C22 C21',
    'core/motion/adjusting.py': 'C23',
    'core/motion/fluctuation.py': 'C25',
    'core/rand.py': 'C25 C13',
    'core/interactions.py': 'C21 C22',
    'core/integrator.py': 'C24',
    'core/sampling.py': 'C26',
    'core/quantities.py': 'C31',
    'core/sensory_region.py': 'C29 C19',
    'core/steering/collective_motion.py': 'C29',
    'core/steering/navigation.py': 'C28',
    'core/steering/obstacle_handling.py': 'C28',
    'core/steering/quickest_path.py': 'C27',
    'core/steering/orientation.py': 'C23',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*', ast.BitOr: '&',
       ast.BitAnd: '|'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(line, col):
        return offs[line - 1] + col

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def put(n, a, b, new, what):
        out.append((n.lineno, what, raw[:a] + new.encode() + raw[b:]))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                for m in ast.walk(d):
                    skip.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for m in n.args.args:
                if m.annotation:
                    for k in ast.walk(m.annotation):
                        skip.add(id(k))
            if n.returns:
                for k in ast.walk(n.returns):
                    skip.add(id(k))
        if isinstance(n, (ast.Raise,)):
            for m in ast.walk(n):
                skip.add(id(m))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n))
            skip.add(id(n.value))
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                infn.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = seg(n.left)[1]
            b = seg(n.comparators[0])[0]
            if b'(' in raw[a:b] or b')' in raw[a:b]:
                continue
            put(n, a, b, ' %s ' % CMP[type(n.ops[0])], 'compare')
        elif isinstance(n, ast.Compare):
            a = seg(n.left)[1]
            b = seg(n.comparators[0])[0]
            put(n, a, b, ' %s ' % CMP[type(n.ops[0])], 'compare')
            a = seg(n.comparators[0])[1]
            b = seg(n.comparators[1])[0]
            put(n, a, b, ' %s ' % CMP[type(n.ops[1])], 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            a, b = seg(n.left)[1], seg(n.right)[0]
            t = raw[a:b].decode()
            sym = [s for s in ('**', '//', '+', '-', '*', '/', '%', '|', '&')
                   if s in t]
            if sym:
                i = t.index(sym[0])
                put(n, a, b, t[:i] + BIN[type(n.op)] + t[i + len(sym[0]):],
                    'binop')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            a, b = seg(n.target)[1], seg(n.value)[0]
            t = raw[a:b].decode()
            put(n, a, b, ' = ', 'augassign->assign')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, a, b, t.replace('+=', '#').replace('-=', '+=')
                    .replace('#', '-='), 'augassign')
        elif isinstance(n, ast.BoolOp):
            for u, v in zip(n.values, n.values[1:]):
                a, b = seg(u)[1], seg(v)[0]
                t = raw[a:b].decode()
                if ' and' in t or 'and ' in t:
                    put(n, a, b, t.replace('and', 'or'), 'and->or')
                elif 'or' in t:
                    put(n, a, b, t.replace('or', 'and'), 'or->and')
        elif isinstance(n, ast.UnaryOp):
            a, b = seg(n)
            put(n, a, b, raw[slice(*seg(n.operand))].decode(), 'unary dropped')
        elif isinstance(n, ast.Constant) and id(n) in infn:
            a, b = seg(n)
            v = n.value
            if v is True or v is False:
                put(n, a, b, repr(not v), 'bool')
            elif isinstance(v, int):
                put(n, a, b, repr(v + 1), 'const+1')
                if v > 0:
                    put(n, a, b, repr(v - 1), 'const-1')
            elif isinstance(v, float):
                put(n, a, b, repr(v + 1.0 if v == 0 else v * 1.3), 'float')
            elif v is None:
                pass
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords \
                and id(n) in infn \
                and not any(isinstance(x, ast.Starred) for x in n.args):
            f = raw[slice(*seg(n.func))].decode()
            if f in ('isinstance', 'getattr', 'hasattr', 'dot', 'max', 'min',
                     'np.hypot', 'setattr'):
                continue
            (a0, a1), (b0, b1) = seg(n.args[0]), seg(n.args[1])
            put(n, a0, b1, (raw[b0:b1] + raw[a1:b0] + raw[a0:a1]).decode(),
                'args swapped')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and id(n) in infn:
            a, b = seg(n.test)
            for v in ('True', 'False'):
                if isinstance(n, ast.While) and v == 'True':
                    continue
                put(n, a, b, v, 'condition ' + v)
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break,
                          ast.Delete)) and id(n) not in docs and id(n) in infn:
            if isinstance(n, ast.Expr) and isinstance(
                    n.value, (ast.Yield, ast.YieldFrom)):
                continue
            a, b = seg(n)
            put(n, a, b, 'pass', 'statement dropped')
        if isinstance(n, ast.Assign) and id(n) in infn and \
                isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            a, b = seg(n)
            put(n, a, b, 'pass', 'statement dropped')
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript):
            pass
        if isinstance(n, ast.Name) and n.id in ('i', 'j') and id(n) in infn \
                and isinstance(n.ctx, ast.Load):
            a, b = seg(n)
            put(n, a, b, 'j' if n.id == 'i' else 'i', 'i<->j')
    return out


CALLS = {'zeros': 'ones', 'argmin': 'argmax', 'argmax': 'argmin', 'min': 'max',
         'max': 'min', 'floor': 'round', 'sin': 'cos', 'cos': 'sin',
         'all': 'any', 'any': 'all', 'sorted': 'list', 'copy': 'asarray',
         'hypot': 'maximum', 'fliplr': 'asarray', 'rotate90': 'rotate270',
         'rotate270': 'rotate90', 'union': 'intersection', 'abs': 'float',
         'intersection': 'union', 'append': 'remove', 'sum': 'max',
         'mean': 'max', 'isnan': 'isinf', 'exp': 'cosh', 'sqrt': 'abs',
         'update': 'setdefault', 'reversed': 'list', 'list': 'tuple',
         'cumsum': 'sort', 'logical_xor': 'logical_or', 'stack': 'vstack',
         'vstack': 'hstack', 'empty': 'zeros', 'exterior': 'envelope'}


def like(a, b):
    """Names that somebody could confuse."""
    if a == b:
        return False
    x, y = a.split('_'), b.split('_')
    return len(a) <= 2 and len(b) <= 2 or x[0] == y[0] or x[-1] == y[-1]


def mutants2(src):
    """Confusions: names, keys, order of statements and of values, calls."""
    tree = ast.parse(src)
    offs = [0]
    for l in src.split('\n'):
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    rnd = random.Random(len(src))

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, \
            offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, a, b, new, what):
        out.append((n.lineno, what, raw[:a] + new + raw[b:]))

    def text(n):
        return raw[slice(*seg(n))]
    skip = set()
    for n in ast.walk(tree):
        for d in getattr(n, 'decorator_list', []):
            skip.update(id(m) for m in ast.walk(d))
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip.update(id(m) for m in ast.walk(n.returns))
        if isinstance(n, ast.Raise):
            skip.update(id(m) for m in ast.walk(n))
    keys = sorted({n.slice.value for n in ast.walk(tree)
                   if isinstance(n, ast.Subscript) and
                   isinstance(n.slice, ast.Constant) and
                   isinstance(n.slice.value, str)})
    attrs = sorted({n.attr for n in ast.walk(tree)
                    if isinstance(n, ast.Attribute) and
                    isinstance(n.value, ast.Name) and n.value.id == 'self'})
    seen = set()
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or id(fn) in skip:
            continue
        local = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
                        and isinstance(n.ctx, ast.Store)} |
                       {a.arg for a in fn.args.args if a.arg != 'self'})
        for n in ast.walk(fn):
            if id(n) in skip or id(n) in seen:
                continue
            seen.add(id(n))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in local:
                for other in [x for x in local if like(x, n.id)][:3]:
                    put(n, *seg(n), other.encode(), 'name ' + other)
            if isinstance(n, ast.Subscript) and \
                    isinstance(n.slice, ast.Constant) and \
                    isinstance(n.slice.value, str) and len(keys) > 1:
                other = rnd.choice([k for k in keys if k != n.slice.value])
                put(n, *seg(n.slice), repr(other).encode(), 'key ' + other)
            if isinstance(n, ast.Attribute) and \
                    isinstance(n.value, ast.Name) and n.value.id == 'self':
                for other in [x for x in attrs if like(x, n.attr)][:2]:
                    put(n, *seg(n), b'self.' + other.encode(), 'attr ' + other)
            if isinstance(n, ast.Call):
                f = n.func
                name = f.attr if isinstance(f, ast.Attribute) else \
                    getattr(f, 'id', None)
                if name in CALLS:
                    a, b = seg(f)
                    put(n, b - len(name.encode()), b, CALLS[name].encode(),
                        'call ' + CALLS[name])
                for k in n.keywords:
                    if k.arg:
                        a, b = seg(k.value)
                        a -= len(k.arg) + 1
                        rest = raw[b:]
                        m = len(rest) - len(rest.lstrip(b', \n'))
                        put(n, a, b + m, b'', 'keyword dropped ' + k.arg)
            if isinstance(n, ast.Tuple) and len(n.elts) == 2 and \
                    isinstance(n.ctx, ast.Load):
                (a0, a1), (b0, b1) = map(seg, n.elts)
                put(n, a0, b1, raw[b0:b1] + raw[a1:b0] + raw[a0:a1],
                    'pair swapped')
            if isinstance(n, ast.Continue):
                put(n, *seg(n), b'break', 'break')
            if isinstance(n, ast.Break):
                put(n, *seg(n), b'continue', 'continue')
            if isinstance(n, ast.Slice) and n.lower is None and \
                    n.upper is not None:
                a, b = seg(n.upper)
                put(n, a, b, b'(' + raw[a:b] + b') - 1', 'slice')
            for body in ('body', 'orelse', 'finalbody'):
                block = getattr(n, body, None)
                if not isinstance(block, list):
                    continue
                for s, t in zip(block, block[1:]):
                    if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign,
                                      ast.If, ast.For)) and \
                            isinstance(t, (ast.Assign, ast.Expr,
                                           ast.AugAssign, ast.If, ast.For)):
                        if any(isinstance(getattr(x, 'value', None),
                                          ast.Constant) for x in (s, t)):
                            continue
                        (a0, a1), (b0, b1) = seg(s), seg(t)
                        put(s, a0, b1, raw[b0:b1] + raw[a1:b0] + raw[a0:a1],
                            'statements swapped')
                last = block[-1] if block else None
                if isinstance(n, (ast.For, ast.If, ast.With)) and \
                        len(block) > 1 and isinstance(
                            last, (ast.Assign, ast.Expr, ast.AugAssign)):
                    a, b = seg(last)
                    line = offs[last.lineno - 1]
                    put(last, line, a, b' ' * n.col_offset, 'dedented')
    return out


def main():
    args = sys.argv[1:]
    opt = dict(jobs=8, max=10 ** 9, out='/tmp/mut.json', seed=1, ops=1)
    mods = []
    while args:
        a = args.pop(0)
        if a.startswith('--'):
            k = a[2:]
            opt[k] = type(opt[k])(args.pop(0))
        else:
            mods += a.split(',')
    work = []
    for m in mods:
        src = open('/repo/crowddynamics/' + m).read()
        for line, what, new in (mutants if opt['ops'] == 1 else mutants2)(src):
            try:
                compile(new, m, 'exec')
            except Exception:
                continue
            work.append((m, line, what, new, src))
    random.Random(5).shuffle(work)
    work = work[:opt['max']]
    print(len(work), 'mutants', flush=True)
    base = tempfile.mkdtemp(prefix='mut')
    pool = []
    for k in range(opt['jobs']):
        d = '%s/%d' % (base, k)
        subprocess.check_call(['cp', '-a', '/repo', d])
        pool.append(d)
    env = {k: v for k, v in os.environ.items()}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               VERIF_SEED=str(opt['seed']), VERIF_FAILFAST='1', VERIF_JOBS='1')
    results = []

    def one(w):
        m, line, what, new, src = w
        repo = pool.pop()
        p = os.path.join(repo, 'crowddynamics', m)
        try:
            with open(p, 'wb') as fp:
                fp.write(new)
            e = dict(env, PYTHONPATH=repo)
            for junk in os.popen('find %s -name __pycache__' % repo):
                shutil.rmtree(junk.strip(), ignore_errors=True)
            try:
                t = subprocess.run(
                    [PY, '-m', 'pytest',
                     'crowddynamics/core/tests/test_block_list.py',
                     'crowddynamics/simulation/tests/test_base.py',
                     'crowddynamics/tests/test_io.py', '-q', '-x', '-p',
                     'no:cacheprovider', '--noconftest', '-o', 'addopts=',
                     '--benchmark-disable'], cwd=repo, env=e, timeout=60,
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if t.returncode:
                    return m, line, what, 'TESTS'
            except subprocess.TimeoutExpired:
                return m, line, what, 'TESTS'
            e = dict(env, VERIF_REPO=repo)
            odd = []
            for c in CHECKS[m].split():
                try:
                    q = subprocess.run([PY, '-B', 'run.py', c], cwd=HERE,
                                       env=e, timeout=400,
                                       stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT)
                except subprocess.TimeoutExpired:
                    odd.append(c + ':timeout')
                    continue
                if q.returncode == 1:
                    return m, line, what, c
                if q.returncode != 0:
                    odd.append('%s:rc%d' % (c, q.returncode))
            return m, line, what, 'SURVIVED ' + ' '.join(odd)
        finally:
            with open(p, 'w') as fp:
                fp.write(src)
            pool.append(repo)

    with ThreadPoolExecutor(opt['jobs']) as ex:
        for w, r in zip(work, ex.map(one, work)):
            results.append(r)
            if r[3].startswith('SURV'):
                old = w[4].split('\n')[r[1] - 1].strip()
                new = w[3].decode().split('\n')[r[1] - 1].strip()
                print('%s:%d %s %s\n    - %s\n    + %s' % (
                    r[0], r[1], r[2], r[3], old, new), flush=True)
    shutil.rmtree(base)
    tests = sum(r[3] == 'TESTS' for r in results)
    surv = sum(r[3].startswith('SURV') for r in results)
    print('%d mutants, %d rejected by tests, %d detected, %d survived' % (
        len(results), tests, len(results) - tests - surv, surv))


main()
