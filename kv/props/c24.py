"""C24: interlaced k-fold assigns the i-th datum to fold i mod k"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.model_selection import InterlacedKFold
from ..core import sub, must, eq, raises
from .c22 import WIDE, alternately, data_of


@st.composite
def cases(draw):
    big = draw(st.integers(0, 19)) == 0
    return {'k': draw(st.one_of(
                st.integers(2, 5), st.integers(-2, 30),
                st.integers(30, 300) if big else st.integers(2, 12))),
            'n': draw(st.integers(30000, 70000)) if big else
            draw(st.one_of(st.integers(1, 12), st.integers(1, 700))),
            'x': draw(st.sampled_from(['flat', 'wide', 'str', 'labels',
                                       'groups'] + WIDE)),
            'default': draw(st.booleans()), 'number': draw(
                st.sampled_from(['int', 'int', 'int16', 'uint8', 'float64']))}


def number(k, c):
    """the number of folds of one of several types"""
    t = c.get('number', 'int')
    if t == 'uint8' and not 0 <= k < 256:
        t = 'int16'
    return k if t == 'int' else np.dtype(t).type(k)


@sub('C24', 'assignment', cases(), 2500, 20000,
     'more data than folds, not a multiple of it')
def assignment(case, rec):
    c = case
    k, n = c['k'], c['n']
    if k < 2:
        raises(ValueError, lambda: InterlacedKFold(
            n_splits=number(k, c)),
               'number of folds')
        rec.label('rejected')
        return
    cv = InterlacedKFold() if k == 3 and c['default'] else InterlacedKFold(
        n_splits=number(k, c))
    must(cv.get_n_splits() == k, 'get_n_splits')
    X = {'wide': np.zeros((n, 3)),
         'str': np.array(['a%d' % i for i in range(n)])}.get(
        c['x'], np.arange(n))
    if c['x'] in WIDE:
        X = data_of({'labels': range(n)}, c['x'])
    args = {'labels': {'y': np.arange(n) % 2},
            'groups': {'groups': np.arange(n) // 3}}.get(c['x'], {})
    if k > n:
        raises(ValueError, lambda: list(cv.split(X, **args)),
               'more folds than data')
        rec.label('rejected')
        return
    at = np.arange(n)
    big = n > 1000
    rec.label('large', big)
    runs = [list(cv.split(X, **args))]
    if not big:
        runs += alternately(lambda: iter(cv.split(X, **args)))
    for got in runs:
        must(len(got) == k, 'number of splits', len(got), k)
        for j, (a, b) in enumerate(got):
            eq(b, at[j::k], 'test set %d' % j)
            eq(a, at[at % k != j], 'training set %d' % j)
    rec.nt(n > k and n % k != 0)
