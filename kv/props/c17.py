"""C17: error metrics equal their definitions"""
import math
from hypothesis import strategies as st
import numpy as np
from kamrecsys.metrics import (
    mean_absolute_error, mean_squared_error, score_predictor_report,
    score_predictor_statistics)
from ..core import sub, must, eq, close, raises
from .. import stats as s


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 40)))
    pools = draw(st.sampled_from([
        ('grid',), ('grid', 'half'), ('half', 'wide'), ('tiny', 'half'),
        ('offset',), ('offset', 'far'), ('offset', 'grid', 'far')]))
    c = {'true': draw(s.vectors(n, pools)), 'pred': draw(s.vectors(n, pools))}
    if draw(st.integers(0, 5)) == 0:
        c['pred'] = list(c['true'])
    c['forms'] = [draw(st.sampled_from(s.FORMS)), draw(st.sampled_from(
        s.FORMS))]
    c['disp'] = draw(st.sampled_from([None, True, False]))
    c['reps'] = draw(st.sampled_from([1, 1, 1, 1, 50]))
    return c


def check(t, p, disp):
    tv, pv = s.values_of(t), s.values_of(p)
    both = s.small(t) and s.small(p)
    # single precision arguments may be handled in single precision
    eps = 1e-5 if both else 1e-10
    err = [a - b for a, b in zip(tv, pv)]
    ab, sq = [abs(e) for e in err], [e * e for e in err]
    # subtraction of numbers of this size
    size = float(max(abs(x) for x in tv + pv))
    scale = size + float(max(ab))
    scale2 = float(max(ab)) * size + float(max(sq)) + eps * size ** 2
    rms = math.sqrt(s.mean(sq))
    m, d = mean_absolute_error(t, p)
    s.near(m, s.mean(ab), scale, eps, 'mean absolute error')
    s.near(d, s.stdev(ab), scale, eps, 's.d. of absolute errors')
    r, m2, d2 = mean_squared_error(t, p)
    s.near(r, rms, scale, eps, 'root mean squared error')
    s.near(m2, s.mean(sq), scale2, eps, 'mean squared error')
    s.near(d2, s.stdev(sq), scale2, eps, 's.d. of squared errors')
    # consistency
    s.near(r * r, m2, scale2, 3 * eps, 'square of the root')
    must(m <= r * (1 + 4 * eps) + eps * scale, 'mean error and rmse', m, r)
    if all(e == 0 for e in err):
        must(m == 0 and d == 0 and r == 0 and m2 == 0 and d2 == 0,
             'no errors', m, d, r, m2, d2)
    for a, b, x in zip(mean_absolute_error(p, t), (m, d), ('mean', 's.d.')):
        s.near(a, b, scale, eps, 'symmetry of absolute errors: ' + x)

    rep = s.report(score_predictor_report, t, p, disp)
    must(sorted(rep) == ['mean absolute error', 'n_samples', 'predicted',
                         'root mean squared error', 'true'],
         'contents of a report', sorted(rep))
    must(rep['n_samples'] == len(tv), 'number of samples', rep)
    s.near(rep['mean absolute error'], s.mean(ab), scale, eps,
           'reported absolute error')
    s.near(rep['root mean squared error'], rms, scale, eps,
           'reported root mean squared error')
    for key, v, a in (('true', tv, t), ('predicted', pv, p)):
        s.describe(rep[key], v, key, 1e-5 if s.small(a) else 1e-10)

    full = score_predictor_statistics(t, p)
    must(full['n_samples'] == len(tv), 'number of samples', full)
    st_ = full['mean absolute error']
    s.near(st_['mean'], s.mean(ab), scale, eps, 'statistics: mae')
    s.near(st_['stdev'], s.stdev(ab), scale, eps, 'statistics: s.d. of ae')
    st_ = full['mean squared error']
    s.near(st_['mean'], s.mean(sq), scale2, eps, 'statistics: mse')
    s.near(st_['stdev'], s.stdev(sq), scale2, eps, 'statistics: s.d. of se')
    s.near(st_['rmse'], rms, scale, eps, 'statistics: rmse')
    for key, v, a in (('true', tv, t), ('predicted', pv, p)):
        s.describe(full[key], v, key, 1e-5 if s.small(a) else 1e-10)


@sub('C17', 'definitions', cases(), 1300, 13000,
     'different errors for at least three samples')
def definitions(case, rec):
    c = case
    tl, pl = c['true'] * c['reps'], c['pred'] * c['reps']
    t, p = s.give(tl, c['forms'][0]), s.give(pl, c['forms'][1])
    kt, kp = np.array(t), np.array(p)
    check(t, p, c['disp'])
    eq(np.array(t), kt, 'true scores are not changed')
    eq(np.array(p), kp, 'predicted scores are not changed')
    must(np.array(t).dtype == kt.dtype, 'type of true scores')
    err = set(abs(a - b) for a, b in zip(c['true'], c['pred']))
    rec.nt(len(c['true']) > 2 and len(err) > 1)
    rec.label('lists', 'list' in c['forms'])
    rec.label('single precision', s.small(t) or s.small(p))
    rec.label('large', len(tl) > 200)


@st.composite
def bad_cases(draw):
    n = draw(st.integers(1, 8))
    c = {'true': draw(s.vectors(n)), 'pred': draw(s.vectors(n)),
         'forms': [draw(st.sampled_from(['list', 'float', 'float32']))
                   for _ in range(2)],
         'side': draw(st.sampled_from(['true', 'pred'])),
         'what': draw(st.sampled_from(['nan', 'inf', '-inf', 'short',
                                       'long', 'one'])),
         'at': draw(st.integers(0, n - 1))}
    return c


@sub('C17', 'rejections', bad_cases(), 500, 5000,
     'one of several values is not finite, or broadcasting would be possible')
def rejections(case, rec):
    c = case
    d = {'true': list(c['true']), 'pred': list(c['pred'])}
    n = len(c['true'])
    if c['what'] in ('nan', 'inf', '-inf'):
        d[c['side']][c['at']] = float(c['what'])
    elif c['what'] == 'short' and n > 1:
        d[c['side']].pop()
    elif c['what'] == 'one' and n > 1:
        d[c['side']] = d[c['side']][:1]
    else:
        d[c['side']].append(1.0)
    t, p = s.give(d['true'], c['forms'][0]), s.give(d['pred'], c['forms'][1])
    for f in (mean_absolute_error, mean_squared_error,
              lambda a, b: score_predictor_report(a, b, disp=False),
              lambda a, b: score_predictor_statistics(a, b)):
        raises(ValueError, lambda: f(t, p), 'bad input (%s)' % c['what'])
    rec.nt(n > 1 and c['what'] != 'long')
    rec.label(c['what'])


# -- many samples: cases are seeds and sizes -------------------------------------

@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([3000, 10000, 33000, 70000])),
            'seed': draw(st.integers(0, 10 ** 6)),
            'kind': draw(st.sampled_from(['int', 'int8', 'float', 'offset',
                                          'float32'])),
            'late': draw(st.booleans())}


@sub('C17', 'large', large_cases(), 60, 600,
     'more samples than 15 bits count, or errors in the last of them only')
def large(case, rec):
    c = case
    n = c['n']
    rng = np.random.RandomState(c['seed'])
    t = rng.randint(-5, 6, n)
    p = rng.randint(-5, 6, n)
    if c['late']:
        p[:-7] = t[:-7]
    if c['kind'] in ('float', 'offset'):
        t, p = t + rng.randint(-8, 9, n) / 16.0, p / 4.0
    if c['kind'] == 'offset':
        t, p = t + 1e5, p + 1e5
    if c['kind'] in ('int8', 'float32'):
        t, p = t.astype(c['kind']), p.astype(c['kind'])
    e = np.array([math.fabs(float(a) - float(b)) for a, b in zip(t, p)])
    q = e * e

    def sd(v):
        m_ = math.fsum(v) / n
        return math.sqrt(math.fsum((v - m_) ** 2) / n)
    mae, mse = math.fsum(e) / n, math.fsum(q) / n
    tol = 1e-4 if s.small(t) else 1e-9
    eps = tol * float(e.max())
    close(mean_absolute_error(t, p), [mae, sd(e)], 'mean absolute error',
          rtol=tol, atol=eps)
    close(mean_squared_error(t, p), [math.sqrt(mse), mse, sd(q)],
          'mean squared error', rtol=tol, atol=eps * float(e.max()))
    rep = s.report(score_predictor_report, t, p, False)
    full = score_predictor_statistics(t, p)
    close([rep['mean absolute error'], rep['root mean squared error'],
           full['mean absolute error']['mean'],
           full['mean squared error']['rmse']],
          [mae, math.sqrt(mse), mae, math.sqrt(mse)], 'reported errors',
          rtol=tol, atol=eps)
    for x in (rep, full):
        must(x['n_samples'] == n, 'number of samples', x)
        for key, v in (('true', t), ('predicted', p)):
            v = v.astype(float)
            scale = float(np.abs(v).max())
            close([x[key]['mean'], x[key]['stdev']],
                  [math.fsum(v) / n, sd(v)], 'description of %s scores' % key,
                  rtol=tol, atol=tol * scale)
    rec.nt(n > 2 ** 15 or c['late'])
