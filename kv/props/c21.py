"""C21: means of statistics pair the arguments of each fold"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.metrics import (
    mean_absolute_error, mean_squared_error, score_histogram, statistics_mean)
from ..core import sub, must, eq, close, raises
from .. import stats as s


@st.composite
def cases(draw):
    keys = draw(st.sampled_from(['str', 'int', 'digits', 'list']))
    folds = draw(st.integers(1, 12))
    args = draw(st.integers(1, 4))
    if keys == 'list':
        ks = list(range(folds))
    elif keys == 'int':
        ks = draw(st.lists(st.integers(-5, 40), min_size=folds,
                           max_size=folds, unique=True))
    elif keys == 'digits':
        ks = [str(i) for i in range(folds)]
    else:
        ks = draw(st.lists(st.text('abc01', min_size=1, max_size=3),
                           min_size=folds, max_size=folds, unique=True))
    c = {'kind': keys, 'keys': ks, 'args': [
        {'order': draw(st.permutations(list(range(folds)))),
         'values': draw(st.lists(st.integers(-50, 50), min_size=folds,
                                 max_size=folds))} for _ in range(args)]}
    c['result'] = draw(st.sampled_from(
        ['number', 'tuple', 'list', 'array', 'matrix', 'one']))
    c['odd'] = draw(st.sampled_from(
        [None, None, None, 'nan', 'inf', '-inf', 'huge']))
    c['at'] = draw(st.integers(0, folds - 1))
    return c


def stores(c):
    out = []
    for a in c['args']:
        if c['kind'] == 'list':
            out.append(list(a['values']))
        else:
            d = {}
            for i in a['order']:
                d[c['keys'][i]] = a['values'][i]
            out.append(d)
    return out


def outcome(args, kind, first=None, odd=None):
    t = 0
    for x in args:
        t = t * 3 + x
    if odd is not None and args == first:
        # a statistic that is undefined for this fold
        t = {'nan': float('nan'), 'inf': float('inf'),
             '-inf': float('-inf'), 'huge': 1e300}[odd]
    return {'number': t, 'tuple': (t, t * t), 'list': [t, 1, -t],
            'array': np.array([t, 2 * t]),
            'matrix': np.array([[t, 0], [1, t]]), 'one': [t]}[kind]


@sub('C21', 'pairing', cases(), 1200, 12000,
     'several folds and arguments with different orders of insertion')
def pairing(case, rec):
    c = case
    st_ = stores(c)
    calls = []

    def fun(*args):
        calls.append(args)
        return outcome(args, c['result'], *odd)
    n = len(c['keys'])
    want = [tuple(a['values'][i] for a in c['args']) for i in range(n)]
    odd = (want[c['at']], c['odd'])
    with np.errstate(all='ignore'):
        got = statistics_mean(fun, *st_)
    must(sorted(calls) == sorted(want),
         'one call per fold with the arguments of that fold', calls, want)
    with np.errstate(all='ignore'):
        total = np.zeros(np.shape(outcome(want[0], c['result'])))
        for w in want:
            total = total + np.array(outcome(w, c['result'], *odd),
                                     dtype=float)
        total = total / n
    got = np.asarray(got, dtype=float)
    must(got.shape == total.shape, 'shape of the mean', got, total)
    eq(np.isnan(got), np.isnan(total),
       'undefined statistics make the mean undefined')
    good = ~np.isnan(total)
    close(got[good], total[good], 'mean of statistics', rtol=1e-9, atol=1e-9)
    rec.label('undefined or infinite', c['odd'] is not None)
    # nothing is changed
    must(st_ == stores(c), 'arguments are not changed')
    rec.nt(n > 1 and len(c['args']) > 1 and
           (c['kind'] == 'list' or
            len(set(tuple(a['order']) for a in c['args'])) > 1))
    rec.label(c['kind'])
    rec.label('more than ten folds', n > 10)


@st.composite
def metric_cases(draw):
    folds = draw(st.integers(1, 5))
    sizes = [draw(st.integers(1, 6)) for _ in range(folds)]
    return {'true': [draw(s.vectors(n, ('half',))) for n in sizes],
            'pred': [draw(s.vectors(n, ('half',))) for n in sizes],
            'order': draw(st.permutations(list(range(folds)))),
            'dict': draw(st.booleans())}


@sub('C21', 'metrics', metric_cases(), 400, 4000, 'several folds')
def metrics(case, rec):
    c = case
    n = len(c['true'])
    if c['dict']:
        t = {'f%d' % i: np.array(c['true'][i]) for i in range(n)}
        p = {'f%d' % i: np.array(c['pred'][i]) for i in c['order']}
    else:
        t = [np.array(x) for x in c['true']]
        p = [np.array(x) for x in c['pred']]
    for f in (mean_absolute_error, mean_squared_error):
        each = [f(c['true'][i], c['pred'][i]) for i in range(n)]
        close(statistics_mean(f, t, p), [
            sum(float(e[j]) for e in each) / n for j in range(len(each[0]))],
            'mean of metrics', rtol=1e-9, atol=1e-12)
    h = statistics_mean(lambda x: score_histogram(x, (-5, 5, 1))[0], t)
    close(h, sum(score_histogram(x, (-5, 5, 1))[0] for x in c['true']) /
          float(n), 'mean of histograms')
    rec.nt(n > 1)


@st.composite
def bad_cases(draw):
    return {'what': draw(st.sampled_from(
        ['tuple', 'array', 'str', 'number', 'none', 'set', 'range'])),
        'n': draw(st.integers(1, 5)), 'args': draw(st.integers(1, 3))}


@sub('C21', 'rejections', bad_cases(), 100, 500, 'several arguments')
def rejections(case, rec):
    n = case['n']
    x = {'tuple': tuple(range(n)), 'array': np.arange(n), 'str': 'a' * n,
         'number': n, 'none': None, 'set': set(range(n)),
         'range': range(n)}[case['what']]
    raises(TypeError, lambda: statistics_mean(
        lambda *a: 1.0, *([x] * case['args'])),
        'arguments that are no dictionaries or lists: ' + case['what'])
    rec.nt(case['args'] > 1)


@st.composite
def large_cases(draw):
    return {'folds': draw(st.sampled_from([30, 101, 257, 1001])),
            'size': draw(st.sampled_from([1, 3, 300])),
            'kind': draw(st.sampled_from(['list', 'str', 'int'])),
            'seed': draw(st.integers(0, 10 ** 6))}


@sub('C21', 'large', large_cases(), 40, 400, 'more than hundred folds')
def large(case, rec):
    c, n = case, case['folds']
    rng = np.random.RandomState(c['seed'])
    a, b = rng.normal(3, 1, (2, n, c['size']))
    keys = ['f%d' % i if c['kind'] == 'str' else i for i in range(n)]

    def store(x, order):
        if c['kind'] == 'list':
            return list(x)
        return dict((keys[i], x[i]) for i in order)
    got = statistics_mean(
        lambda x, y: (float((x * x - y).sum()), float(x[0] * y[-1])),
        store(a, rng.permutation(n)), store(b, rng.permutation(n)))
    want = [np.mean([float((x * x - y).sum()) for x, y in zip(a, b)]),
            np.mean([float(x[0] * y[-1]) for x, y in zip(a, b)])]
    close(got, want, 'mean over many folds', rtol=1e-9, atol=1e-9)
    rec.nt(n > 100)
