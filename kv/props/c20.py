"""C20: variance with a gamma prior is the MAP estimate over finite values"""
from fractions import Fraction
from hypothesis import strategies as st
import numpy as np
from kamrecsys.metrics import variance_with_gamma_prior as variance
from ..core import sub, must, eq, raises
from .. import stats as s

BAD = ['nan', 'inf', '-inf']


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 24)))
    c = {'x': draw(s.vectors(n, ('grid', 'half', 'wide', 'tiny', 'grid',
                                     'huge', 'micro'))),
         'bad': draw(st.lists(st.tuples(
             st.integers(0, 30), st.sampled_from(BAD)).map(list),
             max_size=4)),
         'a': draw(st.one_of(st.none(), st.sampled_from(
             [1e-8, 0.5, 1, 3.25, 0.001, 20]))),
         'b': draw(st.one_of(st.none(), st.sampled_from(
             [1e-8, 0.5, 1, 3.25, 0.001, 20]))),
         'list': draw(st.booleans()), 'shape': draw(st.integers(0, 3)),
         'dtype': draw(st.sampled_from(
             ['float', 'float', 'int', 'int8', 'int16', 'float32']))}
    if draw(st.integers(0, 5)) == 0:
        c['x'] = [c['x'][0]] * n
    c['order'] = draw(st.permutations(list(range(n + len(c['bad'])))))
    return c


def shaped(v, c):
    """the values in one of several shapes"""
    a = np.array(v, dtype=float)
    n = len(v)
    if c['dtype'].startswith('int'):
        if len(v) and all(np.isfinite(x) and x == int(x) for x in v) and (
                np.abs(a).max() <= np.iinfo(c['dtype']).max):
            a = a.astype(c['dtype'])
    elif c['dtype'] == 'float32':
        # the same numbers, if they are exact in single precision
        with np.errstate(all='ignore'):
            if np.array_equal(a.astype('f'), a, equal_nan=True):
                a = a.astype('f')
    if c['shape'] == 1:
        a = a.reshape((n, 1))
    elif c['shape'] == 2 and n % 2 == 0:
        a = a.reshape((2, n // 2))
    elif c['shape'] == 3:
        a = a.reshape((1, n, 1))
    return a.tolist() if c['list'] else a


@sub('C20', 'formula', cases(), 1500, 15000,
     'different values, or values that are not finite')
def formula(case, rec):
    c = case
    v = list(c['x'])
    for at, b in c['bad']:
        v.insert(at % (len(v) + 1), float(b))
    fin = [Fraction(x) for x in v if np.isfinite(x)]
    kw = {k: c[k] for k in 'ab' if c[k] is not None}
    a, b = Fraction(kw.get('a', 1e-8)), Fraction(kw.get('b', 1e-8))
    n = len(fin)
    sq = sum(x * x for x in fin)
    want = (2 * b + sq - sum(fin) ** 2 / n) / (2 * a + n)
    # cancellation of the sums of squares
    tol = float(Fraction(1, 10 ** 13) * (2 * b + sq) * 4 / (2 * a + n) +
                Fraction(1, 10 ** 10) * want)
    x = shaped(v, c)
    keep = np.array(x)
    got = variance(x, **kw)
    must(np.ndim(got) == 0, 'a single number', got)
    must(got > 0, 'the variance is positive', got)
    exact = tol < 0.01 * float(want)
    if exact:
        must(abs(float(got) - float(want)) <= tol,
             'variance with gamma prior', got, float(want))
    # truth values of some type
    yes = [True, True, np.bool_(True), 1][len(c['order']) % 4]
    full = variance(x, full_output=yes, **kw)
    must(len(full) == 2 and float(full[0]) == float(got) and full[1] == n,
         'full output', full, n)
    eq(np.array(x)[np.isfinite(keep)] if keep.dtype.kind == 'f' else x,
       keep[np.isfinite(keep)] if keep.dtype.kind == 'f' else keep,
       'the input is not changed')
    # order
    o = variance(shaped([v[i] for i in c['order']], c), **kw)
    if exact:
        must(abs(float(o) - float(want)) <= tol, 'in another order', o)
    # demanding finite values
    if len(fin) < len(v):
        raises(ValueError, lambda: variance(x, force_all_finite=yes, **kw),
               'values that are not finite')
        # they are ignored
        o = variance(shaped([y for y in v if np.isfinite(y)], c), **kw)
        if exact:
            must(abs(float(o) - float(want)) <= tol, 'ignored values', o)
    else:
        must(float(variance(x, force_all_finite=True, **kw)) == float(got),
             'finite values may be demanded')
    rec.nt(len(set(c['x'])) > 1 or bool(c['bad']))
    rec.label('equal values', len(set(c['x'])) == 1)
    rec.label('not finite', bool(c['bad']))
    rec.label('exactly compared', exact)
    rec.label('not flat', c['shape'] > 0)


@st.composite
def empty_cases(draw):
    return {'bad': draw(st.lists(st.sampled_from(BAD), max_size=6)),
            'force': draw(st.booleans()), 'list': draw(st.booleans()),
            'full': draw(st.booleans()), 'shape': draw(st.integers(0, 3)),
            'dtype': 'float'}


@sub('C20', 'nothing', empty_cases(), 250, 2500, 'some values are given')
def nothing(case, rec):
    x = shaped([float(b) for b in case['bad']], case)
    raises(ValueError, lambda: variance(
        x, full_output=case['full'], force_all_finite=case['force']),
        'no finite values')
    rec.nt(len(case['bad']) > 0)


@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([1500, 10000, 33000, 70000])),
            'seed': draw(st.integers(0, 10 ** 6)),
            'bad': draw(st.integers(0, 5)),
            'type': draw(st.sampled_from(['int', 'float', 'int8', 'int16',
                                          'float32', 'matrix']))}


@sub('C20', 'large', large_cases(), 60, 600,
     'sums that do not fit in the type of the values')
def large(case, rec):
    """many values, of which some may not be finite"""
    c = case
    rng = np.random.RandomState(c['seed'])
    v = rng.randint(-100, 101, c['n'])
    s1, s2, n = int(v.sum()), int((v * v).sum()), c['n']
    if c['type'] == 'matrix':
        x = v.astype(float).reshape((-1, 50))
    else:
        x = v.astype(c['type'])
    if x.dtype.kind == 'f':
        for i in rng.permutation(n)[:c['bad']]:
            x.ravel()[i] = float(BAD[i % 3])
            s1, s2, n = s1 - int(v[i]), s2 - int(v[i]) ** 2, n - 1
    kw = {'a': 0.5, 'b': 3.0} if c['seed'] % 2 else {}
    a, b = Fraction(kw.get('a', 1e-8)), Fraction(kw.get('b', 1e-8))
    want = (2 * b + s2 - Fraction(s1 * s1, n)) / (2 * a + n)
    got = variance(x, full_output=True, **kw)
    must(got[1] == n, 'number of valid data', got)
    must(abs(float(got[0]) - float(want)) <= 1e-8 * float(want),
         'variance of many values', got, float(want))
    if n < c['n']:
        raises(ValueError, lambda: variance(x, force_all_finite=True, **kw),
               'values that are not finite')
    rec.nt(c['type'] in ('int8', 'int16'))
    rec.label('not finite', n < c['n'])
