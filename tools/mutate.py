#!/usr/bin/env python3
"""
Mutation testing of the checks: tools/mutate.py OUT.json [FILE[:CHECK,...]...]

Small changes are made one by one to scratch copies of /repo (operators,
constants, conditions, deleted statements, dropped arguments and copies). A
mutant that the stable tests do not kill is given to the checks of its file
until one reports a violation. The survivors are what is interesting: either
the change means nothing, or a check is missing.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'kamrecsys/'
MAP = {
    K + 'data/base.py': 'C01,C04,C03,C30',
    K + 'data/event.py': 'C02,C01,C03,C30,C29,C10,C12',
    K + 'data/event_with_score.py': 'C05,C03,C15,C30,C29,C12,C14,C13',
    K + 'datasets/base.py': 'C06',
    K + 'datasets/movielens.py': 'C07',
    K + 'datasets/sushi3.py': 'C07',
    K + 'datasets/flixster.py': 'C07',
    K + 'datasets/others.py': 'C07',
    'data/movielens100k.py': 'C07',
    'data/movielens1m.py': 'C07',
    'data/sushi3.py': 'C07',
    'data/flixster.py': 'C07',
    'data/movielens_mini.py': 'C07',
    K + 'base/base.py': 'C29,C10,C12,C08,C09,C11,C16,C31',
    K + 'score_predictor/base.py': 'C29,C12,C13,C08,C14,C26',
    K + 'score_predictor/matrix_factorization.py': 'C08,C31,C09,C10,C12,C11',
    K + 'score_predictor/topic_model.py': 'C13,C14,C12,C11,C09',
    K + 'item_finder/base.py': 'C29,C16,C15,C12,C26',
    K + 'item_finder/matrix_factorization.py':
        'C08,C31,C09,C10,C12,C15,C16,C11',
    K + 'metrics/base.py': 'C21,C05,C18',
    K + 'metrics/real.py': 'C17,C18,C20',
    K + 'metrics/item_finder.py': 'C19',
    K + 'metrics/score_predictor.py': 'C17,C18',
    K + 'model_selection/split.py': 'C22,C23,C24',
    K + 'utils/base.py': 'C28,C25,C15',
    K + 'utils/kammath.py': 'C28',
    K + 'utils/kamexputils.py': 'C25,C28,C26',
    'scripts/exp_recsys_util.py': 'C26,C27',
    'scripts/exp_recsys_sp.py': 'C26',
    'scripts/exp_recsys_if.py': 'C26',
    'scripts/exp_recsys_fold_merge.py': 'C27',
    'scripts/stats_recsys.py': 'C27',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*', '//'],
       ast.Pow: ['*'], ast.Mod: ['//'], ast.FloorDiv: ['%']}


class Source(object):

    def __init__(self, text):
        self.text = text
        self.raw = text.encode('utf-8')
        self.starts = [0]
        for x in self.raw.splitlines(True):
            self.starts.append(self.starts[-1] + len(x))

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset,
                self.starts[n.end_lineno - 1] + n.end_col_offset)

    def seg(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode('utf-8')


def mutants(path, text):
    src = Source(text)
    tree = ast.parse(text)
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            c.parent = p
    out = []

    def skip(n):
        while n is not None:
            if isinstance(n, ast.FunctionDef) and n.name in (
                    '_test', 'get_system_info', 'get_version_info'):
                return True
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                return True
            if isinstance(n, ast.Call) and src.seg(n.func).startswith(
                    ('logger.', 'logging.')):
                return True
            if isinstance(n, ast.If) and ('__name__' in src.seg(n.test) or
                                          'logger' in src.seg(n.test)):
                return True
            if isinstance(n, ast.Assign) and src.seg(
                    n.targets[0]).startswith(('__', 'logger')):
                return True
            if isinstance(n, ast.Raise):
                return True
            n = getattr(n, 'parent', None)
        return False

    def put(n, new, what):
        a, b = src.span(n)
        out.append((n.lineno, what, a, b, new))

    def par(n):
        return '(' + src.seg(n) + ')'

    for n in ast.walk(tree):
        if not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.Raise):
            up = getattr(n, 'parent', None)
            if not isinstance(up, ast.If) or '__name__' not in src.seg(
                    up.test):
                put(n, 'pass', 'no raise')
            continue
        if skip(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            put(n, '(%s %s %s)' % (par(n.left), CMP[o],
                                   par(n.comparators[0])), 'comparison')
            if o in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                rev = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}
                sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
                       ast.GtE: '>='}[o]
                put(n, '(%s %s %s)' % (par(n.left), rev[sym],
                                       par(n.comparators[0])), 'negation')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
                continue
            for o in BIN[type(n.op)]:
                put(n, '(%s %s %s)' % (par(n.left), o, par(n.right)),
                    'operator ' + o)
            put(n, par(n.left), 'left operand')
            put(n, par(n.right), 'right operand')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + o.join(par(v) for v in n.values) + ')', 'and/or')
            for v in n.values:
                put(n, par(v), 'one operand')
        elif isinstance(n, ast.UnaryOp):
            put(n, par(n.operand), 'no unary operator')
        elif isinstance(n, ast.Constant):
            up = n.parent
            if isinstance(up, ast.Expr):
                continue
            v = n.value
            if v is True or v is False:
                put(n, str(not v), 'boolean')
            elif v is None:
                continue
            elif isinstance(v, int):
                put(n, str(v + 1), 'constant + 1')
                if v > 0:
                    put(n, str(v - 1), 'constant - 1')
            elif isinstance(v, float):
                put(n, repr(v * 2 + 0.5), 'constant')
                if v:
                    put(n, repr(v * 1.001), 'constant a bit')
            elif isinstance(v, str) and v and len(v) < 40 and \
                    not isinstance(up, (ast.List, ast.Tuple)) and \
                    '#' not in v:
                put(n, repr(v + 'x'), 'string')
        elif isinstance(n, ast.Call):
            f = src.seg(n.func)
            if len(n.args) == 1 and not isinstance(n.args[0], ast.Starred) \
                    and f not in ('super', 'print'):
                put(n, par(n.args[0]), 'argument instead of call ' + f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'ravel', 'astype', 'nonzero', 'lstrip',
                    'rstrip', 'tolist', 'toarray', 'take', 'sum',
                    'squeeze') or f.endswith(').copy'):
                put(n, par(n.func.value), 'no ' + n.func.attr)
            if f.startswith(('np.', 'sp.')) and len(n.args) >= 1:
                put(n, par(n.args[0]), 'first argument of ' + f)
            for k in n.keywords:
                rest = [src.seg(a) for a in n.args] + [
                    (q.arg + '=' if q.arg else '**') + src.seg(q.value)
                    for q in n.keywords if q is not k]
                put(n, '%s(%s)' % (f, ', '.join(rest)),
                    'no argument %s of %s' % (k.arg, f))
            if len(n.args) == 2 and not n.keywords:
                put(n, '%s(%s, %s)' % (f, src.seg(n.args[1]),
                                       src.seg(n.args[0])),
                    'swapped arguments of ' + f)
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'if True')
            put(n.test, 'False', 'if False')
        elif isinstance(n, ast.IfExp):
            put(n, par(n.body), 'always')
            put(n, par(n.orelse), 'never')
        elif isinstance(n, ast.AugAssign):
            o = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*'}.get(
                type(n.op).__name__, '+')
            put(n, '%s %s= %s' % (src.seg(n.target), o, src.seg(n.value)),
                'augmented')
            put(n, '%s = %s' % (src.seg(n.target), src.seg(n.value)),
                'assigned instead of augmented')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'nothing returned')
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, 'pass', 'no break')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id in ('self', 'data') and isinstance(
                    n.parent, ast.Attribute):
            f = n
            while f is not None and not isinstance(f, ast.FunctionDef):
                f = getattr(f, 'parent', None)
            if f is not None and f.name in (
                    'filter_event', 'fit', '_set_object_info',
                    '_set_event_info', '_set_score_info', 'digitize_score'):
                put(n, 'data' if n.id == 'self' else 'self', 'self/data')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete,
                          ast.If, ast.For)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n.parent, (ast.Module, ast.ClassDef)) and \
                    not path.startswith('data/'):
                continue
            put(n, 'pass', 'deleted: ' + src.seg(n).split('\n')[0][:50])
    seen, res = set(), []
    for line, what, a, b, new in out:
        t = (src.raw[:a] + new.encode('utf-8') + src.raw[b:]).decode('utf-8')
        if t in seen or t == text:
            continue
        seen.add(t)
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((line, what, src.raw[a:b].decode('utf-8')[:90], new[:90],
                    t))
    return res


LOCAL = threading.local()
POOL = []
LOCK = threading.Lock()


def place():
    """a scratch copy of /repo and of the checks for each worker"""
    if not hasattr(LOCAL, 'd'):
        d = tempfile.mkdtemp(prefix='mutate-')
        shutil.copytree('/repo', d + '/repo', symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(HOME, d + '/verif', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded'))
        p = d + '/verif/kv/runner.py'
        s = open(p).read().replace('CASE_CPU_SECONDS = 120',
                                   'CASE_CPU_SECONDS = 20')
        open(p, 'w').write(s)
        LOCAL.d = d
        with LOCK:
            POOL.append(d)
    return LOCAL.d


def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def passed(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    rc, out = sh('timeout 60 /opt/venv/bin/python -B -m pytest -q -p '
                 'no:cacheprovider --continue-on-collection-errors --tb=no '
                 '-rp kamrecsys', repo, env, 90)
    return set(x.split(' ')[1] for x in out.splitlines()
               if x.startswith('PASSED '))


def one(job):
    path, checks, (line, what, old, new, text) = job
    d = place()
    target = os.path.join(d, 'repo', path)
    orig = open('/repo/' + path, encoding='utf-8').read()
    r = dict(file=path, line=line, what=what, old=old, new=new)
    try:
        with open(target, 'w', encoding='utf-8') as f:
            f.write(text)
        if path.startswith(K) and not BASE <= passed(d + '/repo'):
            r['result'] = 'tests'
            return r
        env = dict(os.environ, KV_REPO=d + '/repo', KV_NOSHRINK='1')
        r['result'] = 'survived'
        r['errors'] = []
        for c in checks:
            rc, out = sh('timeout 300 ./run ' + c, d + '/verif', env, 320)
            if rc == 1:
                r['result'] = 'caught'
                r['by'] = c
                return r
            if rc != 0:
                r['errors'].append([c, rc, out[-300:]])
        return r
    finally:
        with open(target, 'w', encoding='utf-8') as f:
            f.write(orig)


def main(argv):
    global BASE
    out = argv[0]
    files = {}
    for a in argv[1:] or list(MAP):
        f, _, c = a.partition(':')
        files[f] = (c or MAP[f]).split(',')
    jobs = []
    for f, c in files.items():
        for m in mutants(f, open('/repo/' + f, encoding='utf-8').read()):
            jobs.append((f, c, m))
    BASE = passed('/repo')
    print(len(jobs), 'mutants;', len(BASE), 'tests', flush=True)
    random.Random(0).shuffle(jobs)
    jobs = jobs[int(os.environ.get('START', '0')):][
        ::int(os.environ.get('STEP', '1'))]
    res, t0 = [], time.time()
    n = int(os.environ.get('JOBS', '8'))
    with ThreadPoolExecutor(n) as ex:
        for i, r in enumerate(ex.map(one, jobs)):
            res.append(r)
            if r['result'] == 'survived':
                print('%s:%d %s\n    %s\n -> %s  %s' % (
                    r['file'], r['line'], r['what'], r['old'], r['new'],
                    r['errors'] or ''), flush=True)
            if i % 50 == 0:
                print('[%d of %d, %d s]' % (i, len(jobs), time.time() - t0),
                      flush=True)
                json.dump(res, open(out, 'w'), indent=1)
    json.dump(res, open(out, 'w'), indent=1)
    for d in POOL:
        shutil.rmtree(d)
    t = [r['result'] for r in res]
    print({k: t.count(k) for k in sorted(set(t))})


if __name__ == '__main__':
    main(sys.argv[1:])
