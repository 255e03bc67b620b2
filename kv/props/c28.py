"""C28: numerical and status utilities are exact on their whole range"""
import math
from fractions import Fraction
from hypothesis import strategies as st
import numpy as np
from kamrecsys.utils import (
    fit_status_message, get_fit_status_message, is_binary_score,
    safe_sigmoid)
from ..core import sub, must, eq

LIM = 34.538776394910684
NUMBER = st.one_of(
    st.floats(-40, 40), st.floats(-2, 2), st.integers(-60, 60).map(float),
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, -0.0, LIM, -LIM, LIM + 1e-9, LIM - 1e-9, 710.0,
                     -746.0, 1e308, -1e308, 1e-300]),
    st.sampled_from(['inf', '-inf']))


@st.composite
def sig_cases(draw):
    v = draw(st.lists(NUMBER, min_size=1, max_size=12))
    return {'x': v, 'form': draw(st.sampled_from(
        ['array', 'scalars', 'list', 'column', 'square', 'float32', 'int',
         'np scalar', 'zero-dim', 'empty']))}


def logistic(x):
    """by exact series where the double exponential is not enough"""
    if x >= 0:
        return 1.0 / (1.0 + math.exp(-x))
    e = math.exp(x)
    return e / (1.0 + e)


def check_value(x, y, eps=4e-15):
    must(isinstance(float(y), float) and 1e-15 * (1 - 1e-9) <= y <=
         1 - 0.99e-15, 'sigmoid is within its range', x, float(y))
    c = min(max(x, -LIM), LIM)
    w = logistic(c)
    must(abs(float(y) - w) <= eps * w, 'logistic function', x, float(y), w)


@sub('C28', 'sigmoid', sig_cases(), 2000, 20000,
     'arguments inside and outside of the clipping range')
def sigmoid(case, rec):
    v = [float(x) for x in case['x']]
    form = case['form']
    eps = 4e-15
    if form == 'int':
        v = [float(int(x)) if abs(x) < 1e6 else 3.0 for x in v]
        arg = np.array(v, dtype=int)
    elif form == 'float32':
        with np.errstate(all='ignore'):
            arg = np.array(v, dtype='float32')
        v = [float(x) for x in arg]
        eps = 1e-5
    elif form == 'column':
        arg = np.array(v).reshape((-1, 1))
    elif form == 'square':
        arg = np.array([v, v])
    elif form == 'list':
        arg = list(v)
    elif form == 'empty':
        must(np.shape(safe_sigmoid(np.empty((0, 2)))) == (0, 2), 'empty')
        arg = np.array(v)
    else:
        arg = np.array(v)
    if form in ('scalars', 'np scalar', 'zero-dim'):
        f = {'scalars': float, 'np scalar': np.float64,
             'zero-dim': np.array}[form]
        got = []
        for x in v:
            y = safe_sigmoid(f(x))
            must(np.ndim(y) == 0, 'a number for a number', y)
            got.append(float(y))
    else:
        keep = np.array(arg)
        out = safe_sigmoid(arg)
        must(np.shape(out) == np.shape(arg), 'shape of the result',
             np.shape(out), np.shape(arg))
        eq(np.array(arg), keep, 'the argument is not changed')
        got = np.asarray(out).ravel()[:len(v)].tolist()
    if form == 'float32':
        # the lower end of the range is kept in single precision, too
        for x, y in zip(v, got):
            c = min(max(x, -LIM), LIM)
            must(abs(y - logistic(c)) <= 1e-5 * logistic(c) + 1e-12,
                 'logistic function in single precision', x, y)
    else:
        for x, y in zip(v, got):
            check_value(x, y, eps)
        o = sorted(range(len(v)), key=lambda i: v[i])
        for i, j in zip(o, o[1:]):
            must(got[i] <= got[j] * (1 + 3e-16), 'monotone', v[i], v[j],
                 got[i], got[j])
            if v[i] == v[j]:
                must(got[i] == got[j], 'a function')
        # symmetry
        back = np.asarray(safe_sigmoid(np.negative(v))).ravel()
        for a, b, x in zip(got, back, v):
            must(abs(a + float(b) - 1) <= 4e-16, 'symmetry', x, a, b)
    rec.nt(any(abs(x) > LIM for x in v) and any(abs(x) < LIM for x in v))
    rec.label('infinite', any(math.isinf(x) for x in v))
    rec.label(form)


# -- binary scores ---------------------------------------------------------------

@st.composite
def binary_cases(draw):
    el = draw(st.sampled_from(
        [[0, 1], [0, 1], [0], [1], [0, 1, 2], [-1, 1], [0, 0.5, 1],
         [2], [0, 2], [0, 1, 1 + 2.0 ** -50], [-1, 0, 1], [1, 2],
         [0, 1, 'nan'], ['nan']]))
    return {'x': draw(st.lists(st.sampled_from(el), max_size=12)),
            'form': draw(st.sampled_from(
                ['list', 'array', 'float', 'bool', 'matrix', 'int8',
                 'tuple'])), 'uniform': draw(st.sampled_from(
                     [None, True, False, False]))}


@sub('C28', 'binary', binary_cases(), 1500, 15000,
     'at least two scores')
def binary(case, rec):
    c = case
    v = [float(x) for x in c['x']]
    f = c['form']
    if f in ('bool', 'int8') and not all(x in (0, 1) for x in v):
        f = 'float'
    arg = {'list': lambda: [int(x) if x in (0, 1, 2) else x for x in v],
           'tuple': lambda: tuple(v), 'array': lambda: np.array(v),
           'float': lambda: np.array(v, dtype='float32' if all(
               x in (0, 1, 2) for x in v) else float),
           'bool': lambda: np.array(v, dtype=bool),
           'int8': lambda: np.array(v, dtype='int8'),
           'matrix': lambda: np.array([v])}[f]()
    kw = {} if c['uniform'] is None else {'allow_uniform': [
        bool, np.bool_, int][len(v) % 3](c['uniform'])}
    got = is_binary_score(arg, **kw)
    s = set(v)
    if c['uniform'] is False:
        want = s == {0.0, 1.0}
    else:
        want = len(s) > 0 and s <= {0.0, 1.0}
    must(got in (True, False) and bool(got) == want, 'is_binary_score', v,
         c['uniform'], got)
    rec.nt(len(v) > 1)
    rec.label('binary', want)


@sub('C28', 'status', st.builds(
    lambda s, t: {'status': s, 'type': t}, st.one_of(
        st.sampled_from([3, 2, 1, 0]), st.integers(-5, 200)), st.sampled_from(
            ['int', 'int64', 'int32'])), 150, 1000, 'a known status')
def status(case, rec):
    s = case['status']
    arg = s if case['type'] == 'int' else getattr(np, case['type'])(s)
    want = {
        0: 'Fitting terminated successfully.',
        1: 'Maximum number of function evaluations has been exceeded.',
        2: 'Maximum number of iterations has been exceeded.',
        3: 'Desired error not necessarily achieved due to precision loss.'
    }.get(s, 'Unknown status code.')
    must(get_fit_status_message(arg) == want, 'message of status %d' % s,
         get_fit_status_message(arg))
    must(sorted(fit_status_message) == ['maxfev', 'maxiter', 'pr_loss',
                                        'success'], 'kinds of messages')
    rec.nt(0 <= s <= 3)


# -- large arrays ------------------------------------------------------------------

@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([129, 1000, 4097, 70000])),
            'scale': draw(st.sampled_from([1, 20, 500])),
            'cols': draw(st.sampled_from([0, 1, 3])),
            'odd': draw(st.sampled_from(
                [None, 0.5, 2, -1, 1 + 2.0 ** -50])),
            'value': draw(st.sampled_from(['mixed', 'mixed', 0, 1])),
            'at': draw(st.floats(0, 1, exclude_max=True)),
            'seed': draw(st.integers(0, 10 ** 6))}


@sub('C28', 'large', large_cases(), 60, 600, 'more than hundred values')
def large(case, rec):
    c, n = case, case['n']
    rng = np.random.RandomState(c['seed'])
    x = rng.normal(0, c['scale'], n)
    if c['cols']:
        x = rng.normal(0, c['scale'], (n, c['cols']))
    y = np.asarray(safe_sigmoid(x))
    must(y.shape == x.shape, 'shape of the result')
    clip = np.clip(x, -LIM, LIM)
    want = np.where(clip >= 0, 1 / (1 + np.exp(-np.abs(clip))),
                    np.exp(-np.abs(clip)) / (1 + np.exp(-np.abs(clip))))
    must(bool(np.all(np.abs(y - want) <= 4e-15 * want)),
         'logistic function of many values', float(np.max(np.abs(y - want))))
    must(bool(np.all((y >= 1e-15 * (1 - 1e-9)) & (y <= 1 - 0.99e-15))),
         'sigmoid is within its range')
    s = rng.randint(0, 2, n).astype(float) if c['value'] == 'mixed' else \
        np.full(n, float(c['value']))
    if c['odd'] is not None:
        s[int(c['at'] * n)] = c['odd']
    elif c['value'] != 'mixed' and c['seed'] % 2:
        s[int(c['at'] * n)] = 1 - s[0] if n > 1 else s[0]
    el = set(s.tolist())
    must(bool(is_binary_score(s)) == (el <= {0.0, 1.0}),
         'is_binary_score of many', sorted(el))
    must(bool(is_binary_score(s, allow_uniform=False)) ==
         (el == {0.0, 1.0}), 'is_binary_score of many, not uniform',
         sorted(el))
    rec.nt(True)
