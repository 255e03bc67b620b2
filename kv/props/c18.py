"""C18: score histograms count every score once at its level"""
from fractions import Fraction
from hypothesis import strategies as st
import numpy as np
from kamrecsys.metrics import score_histogram, score_predictor_statistics
from ..core import sub, must, eq, close, raises
from .. import gen
from .. import stats as s
from .c05 import domain_arg


def score_lists(d):
    """(level, hundredths of the stride) of scores, never at a boundary"""
    return st.lists(st.tuples(
        st.integers(-2, d['n'] + 1),
        st.one_of(st.just(0), st.integers(-49, 49))).map(list),
        min_size=1, max_size=25)


@st.composite
def cases(draw):
    d = draw(gen.domains())
    c = {'domain': d, 'x': draw(score_lists(d)),
         'triple': draw(st.sampled_from(['tuple', 'list', 'array'])),
         'forms': [draw(st.sampled_from(s.FORMS)) for _ in range(2)]}
    n = len(c['x'])
    c['y'] = draw(score_lists(d)) * n
    c['y'] = c['y'][:n]
    return c


def numbers(d, x):
    return [(d['a'] * 100 + d['s'] * (100 * i + o)) / (100.0 * d['q'])
            for i, o in x]


def counts(d, x):
    h = [0] * d['n']
    for i, _ in x:
        h[min(max(i, 0), d['n'] - 1)] += 1
    return h


def form_of(v, form, d):
    # single precision could move a score over a boundary of levels
    return s.give(v, 'float' if form == 'float32' else form)


@sub('C18', 'domain', cases(), 1200, 12000,
     'scores of several levels, some off the levels or outside')
def domain(case, rec):
    c, d = case, case['domain']
    x = form_of(numbers(d, c['x']), c['forms'][0], d)
    keep = np.array(x)
    h, lev = score_histogram(x, score_domain=domain_arg(c))
    must(np.shape(h) == (d['n'],), 'one cell per score level', h, d['n'])
    eq(h, counts(d, c['x']), 'histogram')
    must(int(np.sum(h)) == len(c['x']), 'every score is counted once', h)
    close(lev, gen.levels_of(d), 'candidates are the score levels',
          atol=1e-9)
    eq(np.array(x), keep, 'scores are not changed')
    if d['a'] == d['q'] and d['s'] == d['q'] and d['n'] == 5:
        eq(score_histogram(x)[0], h, 'default domain')
    rec.nt(sum(1 for v in h if v) > 1 and any(
        o != 0 or not 0 <= i < d['n'] for i, o in c['x']))
    rec.label('inexact stride', not gen.domain_is_exact(d))
    rec.label('outside', any(not 0 <= i < d['n'] for i, _ in c['x']))


@sub('C18', 'statistics', cases(), 800, 8000,
     'different histograms of true and predicted scores')
def statistics(case, rec):
    c, d = case, case['domain']
    t = form_of(numbers(d, c['x']), c['forms'][0], d)
    p = form_of(numbers(d, c['y']), c['forms'][1], d)
    full = score_predictor_statistics(t, p, score_domain=domain_arg(c))
    close(full['score levels'], gen.levels_of(d), 'score levels', atol=1e-9)
    for key, x in (('true', c['x']), ('predicted', c['y'])):
        want = counts(d, x)
        eq(full[key]['histogram'], want, 'histogram of %s scores' % key)
        dens = full[key]['histogram density']
        close(dens, [v / float(len(x)) for v in want],
              'density of %s scores' % key)
        close(float(np.sum(dens)), 1.0, 'densities sum to one')
    rec.nt(counts(d, c['x']) != counts(d, c['y']))


@st.composite
def bin_cases(draw):
    n = draw(st.integers(1, 30))
    return {'x': draw(s.vectors(n)), 'bins': draw(st.integers(1, 12)),
            'form': draw(st.sampled_from(s.FORMS)),
            'type': draw(st.sampled_from(['int', 'int64', 'int32']))}


@sub('C18', 'bins', bin_cases(), 800, 8000,
     'more than one bin and different scores')
def bins(case, rec):
    c = case
    x = s.give(c['x'], 'float' if c['form'] == 'float32' else c['form'])
    v = s.values_of(x)
    n = c['bins'] if c['type'] == 'int' else getattr(np, c['type'])(c['bins'])
    h, mid = score_histogram(x, score_domain=n)
    n = c['bins']
    must(np.shape(h) == (n,) and np.shape(mid) == (n,), 'number of bins',
         h, mid)
    must(int(np.sum(h)) == len(v), 'every score is counted once', h)
    lo, hi = min(v), max(v)
    if lo < hi:
        w = (hi - lo) / n
        size = max(abs(lo), abs(hi))
        eps = Fraction(1, 10 ** 11) * size
        close(mid, [float(lo + w * (2 * i + 1) / 2) for i in range(n)],
              'centers of bins', rtol=1e-9, atol=float(eps))
        acc = 0
        for i in range(n - 1):
            acc += int(h[i])
            e = lo + w * (i + 1)
            must(sum(1 for a in v if a < e - eps) <= acc <=
                 sum(1 for a in v if a <= e + eps),
                 'scores below the upper end of bin %d' % i, h)
    else:
        must(sorted(h)[:-1] == [0] * (n - 1), 'equal scores in one bin', h)
    rec.nt(n > 1 and lo < hi)


@st.composite
def bad_cases(draw):
    n = draw(st.integers(1, 8))
    return {'x': draw(s.vectors(n)), 'at': draw(st.integers(0, n - 1)),
            'what': draw(st.sampled_from(['nan', 'inf', '-inf'])),
            'side': draw(st.sampled_from(['x', 'x', 'domain'])),
            'pos': draw(st.integers(0, 2)), 'list': draw(st.booleans())}


@sub('C18', 'rejections', bad_cases(), 200, 2000, 'several scores')
def rejections(case, rec):
    c = case
    x, dom = list(c['x']), [1.0, 5.0, 1.0]
    if c['side'] == 'x':
        x[c['at']] = float(c['what'])
    else:
        dom[c['pos']] = float(c['what'])
    x = x if c['list'] else np.array(x)
    raises(ValueError, lambda: score_histogram(x, score_domain=dom),
           'values that are not finite')
    if c['side'] == 'x':
        raises(ValueError, lambda: score_histogram(x, score_domain=4),
               'values that are not finite, and a number of bins')
    rec.nt(len(x) > 1)


# -- many scores and levels: cases are seeds and sizes --------------------------

@st.composite
def large_cases(draw):
    many = draw(st.booleans())
    d = {'a': draw(st.integers(-300, 300)), 's': draw(st.integers(1, 3)),
         'q': draw(st.sampled_from([1, 1, 2, 4, 10, 100])),
         'n': draw(st.sampled_from([129, 257, 300, 1000])) if many else
         draw(st.integers(2, 20))}
    return {'domain': d, 'n': draw(st.sampled_from(
        [1000, 33000] if many else [33000, 66000, 140000])),
        'one': draw(st.integers(0, 3)) == 0,
        'seed': draw(st.integers(0, 10 ** 6)),
        'triple': draw(st.sampled_from(['tuple', 'list', 'array']))}


@sub('C18', 'large', large_cases(), 60, 600,
     'more scores or levels than 16 or 8 bits count')
def large(case, rec):
    c, d = case, case['domain']
    rng = np.random.RandomState(c['seed'])
    lev = rng.randint(-1, d['n'] + 1, c['n'])
    if c['one']:
        # nearly all scores at a single level
        lev[rng.rand(c['n']) < 0.99] = rng.randint(0, d['n'])
    off = rng.randint(-49, 50, c['n'])
    x = (d['a'] * 100.0 + d['s'] * (100 * lev + off)) / (100 * d['q'])
    want = np.bincount(np.clip(lev, 0, d['n'] - 1), minlength=d['n'])
    h, levels = score_histogram(x, score_domain=domain_arg(c))
    eq(h, want, 'histogram of many scores')
    close(levels, gen.levels_of(d), 'many score levels', atol=1e-9)
    full = score_predictor_statistics(
        x, x[::-1].copy(), score_domain=domain_arg(c))
    for key in ('true', 'predicted'):
        eq(full[key]['histogram'], want, 'histogram of %s scores' % key)
        close(full[key]['histogram density'], want / float(c['n']),
              'density of %s scores' % key)
    eq(score_histogram(x[::-1], score_domain=domain_arg(c))[0], want,
       'scores in another order')
    rec.nt(int(want.max()) > 2 ** 15 or d['n'] > 2 ** 8)
