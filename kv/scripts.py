"""
Shared by the checks of experiment scripts: runs of a script in this process
or in a real one, on scratch files, and recomputation of what it records.
"""
import contextlib
import importlib
import io
import json
import logging
import os
import subprocess
import sys
import tempfile

from hypothesis import strategies as st
import numpy as np

from kamrecsys.data import EventWithScoreData
from kamrecsys.item_finder import LogisticPMF
from kamrecsys.score_predictor import MultinomialPLSA, PMF

from . import gen
from .core import Fail, must
from .runner import REPO

DIR = os.path.join(REPO, 'scripts')
TIMESTAMP = np.dtype([('timestamp', int)])
METHODS = {
    'pmf': ('exp_recsys_sp', PMF, 'probabilistic matrix factorization'),
    'plsam': ('exp_recsys_sp', MultinomialPLSA, 'pLSA'),
    'plsamm': ('exp_recsys_sp', MultinomialPLSA, 'pLSA'),
    'lpmf': ('exp_recsys_if', LogisticPMF,
             'logistic probabilistic matrix factorization')}


def module(name):
    if DIR not in sys.path:
        sys.path.insert(0, DIR)
    m = importlib.import_module(name)
    if os.path.realpath(os.path.dirname(m.__file__)) != os.path.realpath(DIR):
        raise RuntimeError('wrong script: ' + m.__file__)
    return m


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix='kv-scripts-') as d:
        yield d


def call(name, args, stdin=None, real=False, fails=False):
    """run a script, which must fail or not; returns the standard output"""
    if real:
        env = dict(os.environ, PYTHONPATH=REPO)
        try:
            p = subprocess.run(
                [sys.executable, os.path.join(DIR, name + '.py')] + args,
                stdin=open(stdin) if stdin else subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                cwd=os.path.dirname(stdin) if stdin else '/', timeout=300)
        except subprocess.TimeoutExpired:
            raise Fail('script does not end: %s %s' % (name, args))
        if p.returncode:
            raise Fail('script ends with %d: %s %s | %s' % (
                p.returncode, name, args,
                p.stderr.decode('utf8', 'replace')[-600:]))
        return p.stdout.decode()
    mod = module(name)
    old = sys.argv, sys.stdin, sys.stdout, np.geterr(), np.random.get_state()
    out = io.StringIO()
    levels = [(x, logging.getLogger(x).level)
              for x in ('kamrecsys', 'exp_recsys')]
    try:
        sys.argv = [os.path.join(DIR, name + '.py')] + list(args)
        sys.stdout = out
        if stdin:
            sys.stdin = open(stdin)
        logging.disable(logging.CRITICAL)
        # defaults of a parser refer to the standard input and output
        try:
            mod.main()
        except SystemExit as e:
            if not fails or not e.code:
                raise
            fails = False
        except Exception:
            if not fails:
                raise
            fails = False
        if fails:
            raise Fail('script does not fail: %s %s' % (name, args))
    except SystemExit as e:
        if e.code:
            raise Fail('script ends with %r: %s %s' % (e.code, name, args))
    except OSError as e:
        raise Fail('script: %r: %s %s' % (e, name, args))
    finally:
        if stdin:
            sys.stdin.close()
        sys.argv, sys.stdin, sys.stdout = old[:3]
        np.seterr(**old[3])
        np.random.set_state(old[4])
        logging.disable(logging.NOTSET)
        for x, v in levels:
            logging.getLogger(x).setLevel(v)
    return out.getvalue()


# -- cases --------------------------------------------------------------------

@st.composite
def data_file(draw, pools, n_levels, domain, min_user=1, max_user=6,
              stamp=False, users=None):
    """rows [user, item, level number, timestamp] in a random order"""
    rows = []
    users = pools[0] if users is None else users
    for u in users:
        for _ in range(draw(st.integers(min_user, max_user))):
            rows.append([u, draw(st.sampled_from(pools[1])),
                         draw(st.integers(0, n_levels - 1)),
                         draw(st.integers(0, 2 ** 40)) if stamp else 0])
    return list(draw(st.permutations(rows)))


# domains with zeros, and whose minimum, maximum and stride cancel
DOMAINS = [{'a': a, 's': s, 'q': q, 'n': n} for a, s, q, n in (
    (-2, 1, 1, 4), (-3, 2, 1, 3), (-2, 1, 2, 4), (0, 1, 1, 3), (-4, 2, 1, 3),
    (-1, 1, 1, 2), (-2, 1, 1, 3), (1, 1, 1, 5), (1, 1, 2, 10))]


@st.composite
def cases(draw, scheme, methods=('pmf', 'pmf', 'plsam', 'plsamm', 'lpmf')):
    c = {'scheme': scheme, 'method': draw(st.sampled_from(list(methods)))}
    kind = draw(st.sampled_from(['int', 'small', 'int', 'wide']))
    pools = [draw(gen.id_pool(kind, 4, 1)), draw(gen.id_pool(kind, 5, 1))]
    binary = c['method'] == 'lpmf' and draw(st.integers(0, 3)) == 0
    c['domain'] = {'a': 0, 's': 1, 'q': 1, 'n': 2} if binary else draw(
        st.one_of(gen.domains(max_levels=7), st.sampled_from(DOMAINS)))
    n = c['domain']['n']
    c['stamp'] = draw(st.booleans())
    lo = 1
    if scheme == 'cv':
        lo = draw(st.sampled_from(
            [4, 5, 20] if c['method'] == 'lpmf' else [2, 2, 3, 5, 20]))
    c['rows'] = draw(data_file(pools, n, c['domain'], lo, lo + 5,
                               c['stamp']))
    if len(c['rows']) < 2:
        c['rows'].append(list(c['rows'][0]))
    # scores are not uniform
    c['rows'][0][2] = 0
    c['rows'][-1][2] = n - 1
    if c['method'] == 'lpmf' and scheme == 'cv':
        # item finders need both classes in every training set
        mine = [r for r in c['rows'] if r[0] == pools[0][0]]
        for i, r in enumerate(mine):
            r[2] = (n - 1) * (i % 2)
    c['auto'] = draw(st.booleans())
    if scheme == 'holdout':
        extra = gen.unknown_ids(kind, set(pools[0]) | set(pools[1]), 1)
        pool = [pools[0] + extra[-1:], pools[1] + extra[-2:]]
        c['test'] = draw(data_file(
            pool, n, c['domain'], 1, 4, c['stamp'],
            users=draw(st.lists(st.sampled_from(pool[0]), min_size=1,
                                max_size=4))))
    else:
        c['folds'] = draw(st.sampled_from([1, 2, 2, 3, 5, 11]))
        c['defaults'] = c['folds'] == 5 and draw(st.booleans())
        c['one'] = draw(st.integers(0, c['folds'] - 1)) if draw(
            st.integers(0, 2)) == 0 else None
    c['k'] = draw(st.sampled_from([None, 1, 2, 3, 3, 12]))
    c['C'] = draw(st.sampled_from([None, 0.05, 0.5, 2.0, 0.0]))
    c['alpha'] = draw(st.sampled_from([None, 0.1, 3.0, 1e-3]))
    c['tol'] = draw(st.sampled_from([None, 1e-3, 1e-7]))
    c['maxiter'] = draw(st.sampled_from([0, 1, 2, 5, 9, 9, None]))
    c['rseed'] = draw(st.one_of(
        st.integers(0, 20), st.integers(0, 2 ** 32 - 1), st.none()))
    c['form'] = draw(st.sampled_from(
        ['options', 'options', 'long', 'positional', 'std']))
    c['quiet'] = draw(st.booleans())
    c['eol'] = draw(st.sampled_from(['\n', '\n', '\r\n']))
    c['end'] = draw(st.booleans())
    return c


@st.composite
def large_cases(draw, scheme, methods=('pmf', 'plsam', 'plsamm', 'lpmf')):
    """files of more than a thousand ratings, many of them per user"""
    c = draw(cases(scheme, methods))
    n = c['domain']['n']
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    users, items = [draw(st.sampled_from([20, 101, 130, 300]))
                    for _ in range(2)]
    base = draw(st.sampled_from([0, 1, 1, 900, 2 ** 31, -100]))

    def table(size, u, i):
        who = np.r_[np.repeat(np.arange(users), 5),
                    rng.randint(0, u, max(0, size - 5 * users))]
        rng.shuffle(who)
        return [[base + int(a), base - 7 + int(b), int(s),
                 int(t) if c['stamp'] else 0] for a, b, s, t in zip(
                     who, rng.randint(0, i, len(who)),
                     rng.randint(0, n, len(who)),
                     rng.randint(0, 2 ** 31 - 1, len(who)))]
    c['rows'] = table(draw(st.sampled_from([1025, 1300, 2000])), users, items)
    if scheme == 'holdout':
        c['test'] = table(draw(st.sampled_from([1, 1500])), users + 3,
                          items + 3)
    else:
        c['folds'] = draw(st.sampled_from([2, 3]))
        c['defaults'] = False
        c['one'] = draw(st.sampled_from([None, 0, 1]))
    c['k'] = draw(st.sampled_from([None, 2]))
    c['maxiter'] = draw(st.sampled_from([0, 1]))
    return c


def level(c, i):
    return gen.levels_of(c['domain'])[i]


def number(x):
    return '%d' % x if x == int(x) else repr(x)


def write(path, rows, c):
    lines = []
    for r in rows:
        f = ['%d' % r[0], '%d' % r[1], number(level(c, r[2]))]
        if c['stamp']:
            f.append('%d' % r[3])
        lines.append('\t'.join(f))
    with io.open(path, 'w', newline='') as f:
        f.write(c['eol'].join(lines) + (c['eol'] if c['end'] else ''))


def arguments(c, d, one=None):
    """(script, arguments, stdin, output file or None) of a run"""
    script = METHODS[c['method']][0]
    train, test, out = [os.path.join(d, n) for n in
                        ('train.event', 'test.event', 'out-%s.json' % one)]
    write(train, c['rows'], c)
    long_ = c['form'] == 'long'
    a, tail, stdin = [], [], None
    if c['form'] == 'positional':
        tail = [train, out]
    elif c['form'] == 'std':
        stdin, out = train, None
    else:
        a += ['--in' if long_ else '-i', train,
              '--out' if long_ else '-o', out]
    if c['scheme'] == 'holdout':
        if c['test'] is not None:
            write(test, c['test'], c)
            a += ['--test' if long_ else '-t', test]
        if long_:
            a += ['--validation', 'holdout']
    else:
        a += ['--validation' if long_ else '-v', 'cv']
        if not c['defaults']:
            a += ['--fold' if long_ else '-f', str(c['folds'])]
        if one is not None:
            a += ['--fold-no' if long_ else '-n', str(one)]
    if not (c['method'] in ('pmf', 'lpmf') and not long_):
        a += ['--method' if long_ else '-m', c['method']]
    if not c['stamp']:
        a.append('--no-timestamp')
    elif long_:
        a.append('--timestamp')
    if not c['auto']:
        a += ['--domain' if long_ else '-d'] + [
            number(x) for x in gen.triple_of(c['domain'])]
    for key, s, l in (('C', '-C', '--lambda'), ('k', '-k', '--dim')):
        if c[key] is not None:
            a += [l if long_ else s, str(c[key])]
    for key in ('alpha', 'tol', 'maxiter'):
        if c[key] is not None:
            a += ['--' + key, repr(c[key])]
    if c['rseed'] is not None:
        a += ['--rseed', str(c['rseed'])]
    if c['quiet']:
        a += ['--quiet' if long_ else '-q']
    return script, a + tail, stdin, out


def no_constant(x):
    raise Fail('the record is not standard JSON: %s' % x)


def parse(text):
    try:
        return json.loads(text)
    except ValueError as e:
        raise Fail('the output is not JSON: %r %r' % (e, text[:200]))


def read(path):
    try:
        with io.open(path, encoding='utf8') as f:
            return parse(f.read())
    except OSError as e:
        raise Fail('the output file is not there: %r' % (e,))


def run(c, d, one=None, real=False):
    """the record written by an experiment"""
    script, args, stdin, out = arguments(c, d, one)
    text = call(script, args, stdin, real)
    if out is None:
        return parse(text)
    must(text == '', 'nothing is output elsewhere', text)
    return read(out)


# -- recomputation ------------------------------------------------------------

def options(c):
    o = {'k': 1 if c['k'] is None else c['k'],
         'tol': 1e-05 if c['tol'] is None else c['tol'],
         'random_state': c['rseed'] if c['rseed'] is not None else 'None'}
    if c['maxiter'] is not None:
        o['maxiter'] = c['maxiter']
    if c['method'] in ('pmf', 'lpmf'):
        o['C'] = 0.01 if c['C'] is None else c['C']
    else:
        o['alpha'] = 1.0 if c['alpha'] is None else c['alpha']
        o['use_expectation'] = c['method'] == 'plsam'
    return o


def domain(c):
    """(score domain of a run, exact middle of it)"""
    if not c['auto']:
        t = gen.triple_of(c['domain'])
        return [float(number(x)) for x in t]
    s = sorted(set(level(c, r[2]) for r in c['rows']))
    return [s[0], s[-1], min(b - a for a, b in zip(s, s[1:]))]


def scores(c, rows):
    """scores a run uses"""
    s = [level(c, r[2]) for r in rows]
    if c['method'] == 'lpmf':
        lo, hi, _ = domain(c)
        s = [0 if x <= (hi - lo) / 2 + lo else 1 for x in s]
    return s


def ids(rows):
    return np.array([r[:2] for r in rows], dtype=int)


def trained(c, rows):
    """a recommender trained on rows of an event file"""
    data = EventWithScoreData()
    binary = c['method'] == 'lpmf'
    data.set_event(ids(rows), np.array(scores(c, rows)),
                   score_domain=[0, 1, 1] if binary else domain(c))
    kw = options(c)
    kw['random_state'] = c['rseed']
    rec = METHODS[c['method']][1](**kw)
    with np.errstate(all='ignore'):
        rec.fit(data)
    return rec
