"""C19: statistics of item finding equal their definitions"""
from fractions import Fraction
from hypothesis import strategies as st
import numpy as np
from kamrecsys.metrics import item_finder_report, item_finder_statistics
from ..core import sub, must, eq, close, raises
from .. import stats as s

FORMS = s.FORMS + ['bool', 'int8']


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(2, 40)))
    t = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    if draw(st.integers(0, 4)) == 0:
        t = [t[0]] * n
    pool = draw(st.sampled_from(['levels', 'probabilities', 'any',
                                 'binary', 'equal', 'close']))
    e = {'levels': st.integers(0, 4).map(lambda i: i / 4.0),
         'probabilities': st.floats(0, 1, width=32).map(
             lambda x: 0. if x < 1e-12 else x),
         'any': st.floats(-1e6, 1e6, width=32).map(
             lambda x: 0. if abs(x) <= 1e-3 else x),
         'binary': st.integers(0, 1).map(float),
         'equal': st.just(0.5),
         # of neighbouring numbers
         'close': st.integers(-4, 4).map(lambda i: 0.5 + i * 2.0 ** -50),
         }[pool]
    p = draw(st.lists(e, min_size=n, max_size=n))
    return {'true': t, 'pred': p, 'disp': draw(st.sampled_from(
        [None, True, False])),
        'forms': [draw(st.sampled_from(FORMS)), draw(st.sampled_from(
            s.FORMS))], 'reps': draw(st.sampled_from([1, 1, 1, 10]))}


def auc(t, p):
    pos = [x for y, x in zip(t, p) if y == 1]
    neg = [x for y, x in zip(t, p) if y == 0]
    if not pos or not neg:
        return None
    acc = sum(2 if a > b else 1 if a == b else 0 for a in pos for b in neg)
    return Fraction(acc, 2 * len(pos) * len(neg))


@sub('C19', 'definitions', cases(), 1200, 12000,
     'both classes with tied and different predictions')
def definitions(case, rec):
    c = case
    tl, pl = c['true'] * c['reps'], c['pred'] * c['reps']
    if c['forms'][0] in ('bool', 'int8'):
        t = np.array(tl, dtype=c['forms'][0])
    else:
        t = s.give(tl, c['forms'][0])
    p = s.give(pl, c['forms'][1])
    kt, kp = np.array(t), np.array(p)
    tv, pv = s.values_of(t), s.values_of(p)
    want = auc(c['true'], pv[:len(c['true'])])
    stats = [s.report(item_finder_report, t, p, c['disp']),
             item_finder_statistics(t, p)]
    for x in stats:
        keys = {'n_samples', 'true', 'predicted'}
        if want is not None:
            keys.add('area under the curve')
        must(set(x) == keys, 'contents', sorted(x), sorted(keys))
        must(x['n_samples'] == len(tv), 'number of samples', x)
        for key, v, a in (('true', tv, t), ('predicted', pv, p)):
            s.describe(x[key], v, key, 1e-5 if s.small(a) else 1e-10)
        if want is not None:
            close(float(x['area under the curve']), float(want),
                  'area under the curve', rtol=1e-9)
    eq(np.array(t), kt, 'true scores are not changed')
    eq(np.array(p), kp, 'predicted scores are not changed')
    # the area does not depend on order, only on ranks
    if want is not None:
        o = list(range(len(tl)))[::-1]
        r = sorted(set(pv))
        x = item_finder_statistics(
            np.array(tl)[o], np.array([r.index(v) for v in pv])[o])
        close(float(x['area under the curve']), float(want),
              'area by ranks in another order', rtol=1e-9)
    rec.nt(want is not None and len(set(pl)) > 1 and
           len(set(c['pred'])) < len(c['pred']))
    rec.label('one class', want is None)
    rec.label('ties', len(set(c['pred'])) < len(c['pred']))


@st.composite
def bad_cases(draw):
    n = draw(st.integers(1, 8))
    t = draw(st.lists(st.integers(0, 1).map(float), min_size=n, max_size=n))
    p = draw(st.lists(st.integers(0, 4).map(lambda i: i / 4.0), min_size=n,
                      max_size=n))
    what = draw(st.sampled_from(
        ['nan', 'inf', '-inf', 'short', 'long', 'one', 'level', 'level',
         'level']))
    return {'true': t, 'pred': p, 'what': what,
            'level': draw(st.sampled_from([2.0, -1.0, 0.5, 1 + 2.0 ** -40,
                                           -2.0 ** -40, 5.0])),
            'side': draw(st.sampled_from(['true', 'pred'])),
            'at': draw(st.integers(0, n - 1)),
            'uniform': draw(st.booleans()),
            'forms': [draw(st.sampled_from(['list', 'float']))
                      for _ in range(2)]}


@sub('C19', 'rejections', bad_cases(), 600, 6000, 'more than one sample')
def rejections(case, rec):
    c = case
    d = {'true': list(c['true']), 'pred': list(c['pred'])}
    n = len(d['true'])
    if c['what'] in ('nan', 'inf', '-inf'):
        d[c['side']][c['at']] = float(c['what'])
    elif c['what'] == 'level':
        if c['uniform']:
            d['true'] = [c['level']] * n
        d['true'][c['at']] = c['level']
    elif c['what'] == 'short' and n > 1:
        d[c['side']].pop()
    elif c['what'] == 'one' and n > 1:
        d[c['side']] = d[c['side']][:1]
    else:
        d[c['side']].append(1.0)
    t, p = s.give(d['true'], c['forms'][0]), s.give(d['pred'], c['forms'][1])
    for f in (lambda: item_finder_report(t, p, disp=False),
              lambda: item_finder_statistics(t, p)):
        raises(ValueError, f, 'bad input (%s)' % c['what'])
    rec.nt(n > 1)
    rec.label(c['what'])


# -- many samples: cases are seeds and sizes -------------------------------------

@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([1500, 10000, 33000, 70000])),
            'seed': draw(st.integers(0, 10 ** 6)),
            'rare': draw(st.sampled_from([0, 1, 2, 3])),
            'values': draw(st.sampled_from([2, 5, 300, 10 ** 6])),
            'type': draw(st.sampled_from(['int', 'float', 'bool', 'int8'])),
            'disp': draw(st.booleans())}


@sub('C19', 'large', large_cases(), 60, 600,
     'more than 15 bits count, or a class of few samples')
def large(case, rec):
    c = case
    n = c['n']
    rng = np.random.RandomState(c['seed'])
    t = rng.randint(0, 2, n)
    if c['rare']:
        # a single sample, or a few, of a class at some position
        t[:] = c['rare'] % 2
        t[rng.randint(0, n, c['rare'])] = 1 - c['rare'] % 2
    v = rng.randint(0, c['values'], n) + (t if c['seed'] % 2 else 0)
    p = v / float(c['values'] + 1)
    # numbers of negatives below and at the same rank of every positive
    neg, pos = np.sort(v[t == 0]), v[t == 1]
    lo = np.searchsorted(neg, pos, 'left')
    hi = np.searchsorted(neg, pos, 'right')
    want = Fraction(int(lo.sum()) + int(hi.sum()),
                    2 * len(pos) * len(neg))
    x = t.astype(c['type'])
    for got in (s.report(item_finder_report, x, p, c['disp']),
                item_finder_statistics(x, p)):
        must(got['n_samples'] == n, 'number of samples', got)
        close(float(got['area under the curve']), float(want),
              'area under the curve', rtol=1e-9)
        for key, w in (('true', t), ('predicted', p)):
            m_ = float(np.sum(w)) / n
            close([got[key]['mean'], got[key]['stdev']],
                  [m_, float(np.sqrt(np.sum((w - m_) ** 2) / n))],
                  'description of %s scores' % key,
                  rtol=1e-8, atol=1e-4 if s.small(x) else 1e-10)
    rec.nt(n > 2 ** 15 or c['rare'] > 0)
    rec.label('rare class', c['rare'] > 0)
