"""C14: pLSA predicts the mean or mode of the score distribution"""
import math
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventWithScoreData
from kamrecsys.score_predictor import MultinomialPLSA
from ..core import sub, must, eq, close
from .. import gen
from .. import models as m
from . import c13
from .c10 import queries, query_array


@st.composite
def cases(draw):
    c = draw(m.datasets(min_rows=2))
    c13.settings(draw, c)
    c['maxiter'] = draw(st.sampled_from([0, 1, 3, 10, 40]))
    c['queries'] = draw(queries(c))
    c['order'] = draw(st.permutations(list(range(len(c['queries'])))))
    c['as_list'] = draw(st.booleans())
    c['reps'] = draw(st.sampled_from([2, 2, 3, 70, 400]))
    c['dtype'] = draw(st.sampled_from([None, None, 'int32', 'float', 'S']))
    return c


def run(case, rec, mode):
    c = dict(case, mode=mode)
    data = m.container(c)
    model = c13.train(c, data, maxiter=c['maxiter'], tol=0)
    before = m.all_params('plsa', model)
    pz, px, py, pr = c13.params(c, data, model)
    cols, (iu, ii) = gen.cols_of(c), m.index_of(c)
    known = gen.objects_of(c)
    levels = gen.levels_of(c['domain'])
    ties = [0]

    def one(row):
        """(known user, known item, acceptable predictions)"""
        u, i = row[iu], row[ii]
        ku, ki = u in known[cols[iu]], i in known[cols[ii]]
        w = list(pz)
        if ku:
            a = px[int(data.to_iid(cols[iu], u))]
            w = [x * y for x, y in zip(w, a)]
        if ki:
            a = py[int(data.to_iid(cols[ii], i))]
            w = [x * y for x, y in zip(w, a)]
        dist = [math.fsum(x * y for x, y in zip(w, row_)) for row_ in pr]
        s = math.fsum(dist)
        dist = [x / s for x in dist]
        if mode:
            top = max(dist)
            ok = [v for v, p in zip(levels, dist) if p >= top * (1 - 1e-9)]
            ties[0] += len(ok) > 1
        else:
            ok = [math.fsum(v * p for v, p in zip(levels, dist))]
        return ku, ki, ok

    lo, hi = levels[0], levels[-1]
    eps = 1e-9 * (1 + abs(lo) + abs(hi))

    def good(v, ok, what):
        v = float(v)
        must(lo - eps <= v <= hi + eps, what + ': in the score domain', v)
        must(any(abs(v - w) <= eps for w in ok), what, v, ok)

    rows = c['queries']
    want = [one(r) for r in rows]
    arr = query_array(c, rows)
    keep = arr.copy()
    got = model.predict(arr)
    if len(rows) == 1:
        must(np.size(got) == 1, 'one number for one event', got)
        got = np.reshape(got, (1,))
    must(np.shape(got) == (len(rows),), 'shape of predictions',
         np.shape(got), len(rows))
    for v, w in zip(got, want):
        good(v, w[2], 'prediction of an event (user known: %s, item known: '
             '%s)' % w[:2])
    eq(arr, keep, 'events given to predict are not changed')
    for r, a, w, v in zip(rows, arr, want, got):
        s = model.predict(r if c['as_list'] else a)
        must(np.ndim(s) == 0, 'one number for one event', s)
        good(s, w[2], 'prediction of a single event')
        close(float(s), float(v), 'alone and in a batch', rtol=1e-9,
              atol=eps) if len(w[2]) == 1 else None
    for x, o in ((arr[c['order']], c['order']),
                 (np.tile(arr, (c['reps'], 1)),
                  list(range(len(rows))) * c['reps'])):
        s = np.reshape(model.predict(x), (-1,))
        must(len(s) == len(o), 'number of predictions', len(s))
        for v, j in zip(s, o):
            good(v, want[j][2], 'prediction in another batch')
    eq(np.reshape(model.predict(arr), (-1,)), got,
       'predictions are repeatable')
    m.same(before, m.all_params('plsa', model),
           'predicting does not change the recommender')
    if c['as_list']:
        for v, w in zip(np.reshape(model.predict([list(r) for r in rows]),
                                   (-1,)), want):
            good(v, w[2], 'predictions of a list')
    part = any(a != b for a, b, _ in want)
    rec.nt(c['k'] > 1 and len(set(x for w in want for x in w[2])) > 1)
    rec.label('unknown user or item', part)
    rec.label('unknown both', any(not a and not b for a, b, _ in want))
    rec.label('ties', ties[0] > 0)
    rec.label('special columns', c['event_index'] is not None or
              c['event_otypes'] is not None)


RULE = 'more than one latent factor and different predictions'


@sub('C14', 'expectation', cases(), 900, 7000, RULE)
def expectation(case, rec):
    run(case, rec, False)


@sub('C14', 'mode', cases(), 900, 7000, RULE)
def mode(case, rec):
    run(case, rec, True)


@st.composite
def variants(draw):
    c = draw(cases())
    c['modes'] = draw(st.lists(st.booleans(), min_size=2, max_size=5))
    return c


@sub('C14', 'switching', variants(), 150, 1200, 'both variants are used')
def switching(case, rec):
    """the variant is that of the attribute at prediction time"""
    c = dict(case, mode=False)
    data = m.container(c)
    arr = query_array(c, c['queries'])
    ref = {}
    for mode in (False, True):
        ref[mode] = c13.train(dict(c, mode=mode), data,
                              maxiter=c['maxiter'], tol=0)
    for mode in c['modes']:
        p = ref[mode].predict(arr)
        q = c13.train(dict(c, mode=mode), data, maxiter=c['maxiter'],
                      tol=0).predict(arr)
        eq(p, q, 'predictions of a variant')
    m.same(m.all_params('plsa', ref[False]), m.all_params('plsa', ref[True]),
           'the variant of prediction has no influence on training')
    rec.nt(len(set(c['modes'])) == 2)


# -- many users and items: the same with numpy ----------------------------------------

@st.composite
def large_cases(draw):
    c = draw(c13.large_cases())
    c['unknown'] = draw(st.sampled_from([0.0, 0.01, 0.3]))
    c['queries'] = draw(st.sampled_from([1, 200, 1024, 5000, 40000]))
    return c


@sub('C14', 'large', large_cases(), 40, 400,
     'more users or items than 8 bits count, many queries')
def large(case, rec):
    c = case
    data, raw, sc = m.large_container(c)
    model = c13.train(c, data, maxiter=c['at'], tol=0)
    pz, px, py, pr = [np.array(t) for t in c13.params(c, data, model)]
    px, py = [np.vstack([t, np.ones((1, c['k']))]) for t in (px, py)]
    rng = np.random.RandomState(c['seed'] % 1000)
    n = [len(e) for e in data.eid]
    iid = [rng.randint(0, k, c['queries']) for k in n]
    iid = [np.where(rng.rand(c['queries']) < c['unknown'], n[o], iid[o])
           for o in range(2)]
    un = 'no such id' if c['kind'] == 'str' else -10 ** 6
    arr = np.stack([np.array(list(data.eid[o]) + [un])[iid[o]]
                    for o in range(2)], axis=1)
    dist = np.dot(pz * px[iid[0]] * py[iid[1]], pr.T)
    dist /= dist.sum(axis=1, keepdims=True)
    got = np.reshape(model.predict(arr), (-1,))
    must(len(got) == len(arr), 'number of predictions', len(got))
    if c['mode']:
        must(bool(np.all(np.isin(got, np.arange(c['levels'])))),
             'modes are score levels', got)
        p = dist[np.arange(len(got)), got.astype(int)]
        must(bool(np.all(p >= dist.max(axis=1) * (1 - 1e-9))),
             'modes of many events')
    else:
        close(got, np.dot(dist, np.arange(c['levels'])),
              'means of many events', rtol=1e-8, atol=1e-9)
        for r in (0, len(arr) // 2, -1):
            close(float(model.predict(arr[r])), got[r], 'one of many events',
                  rtol=1e-8, atol=1e-9)
    rec.nt(max(c['n']) > 256 and c['queries'] > 1)
    rec.label('mode', c['mode'])


# -- so many objects that a pair has a tiny probability ----------------------------------

@st.composite
def rare_cases(draw):
    return {'n': [draw(st.sampled_from([3000, 40000, 70000]))
                  for _ in range(2)],
            'seed': draw(st.integers(0, 10 ** 6)),
            'alpha': draw(st.sampled_from([1e-3, 0.1, 1.0, 10.0])),
            'k': draw(st.integers(1, 3)), 'mode': draw(st.booleans()),
            'domain': {'a': 1, 's': 1, 'q': 1, 'n': 5},
            'event_index': None, 'event_otypes': None, 'rows': [0],
            'at': draw(st.sampled_from([0, 0, 1])),
            'queries': draw(st.sampled_from([1, 7, 300]))}


@sub('C14', 'rare', rare_cases(), 10, 60,
     'a pair has a probability below 1e-8')
def rare(case, rec):
    c = case
    rng = np.random.RandomState(c['seed'])
    m_ = max(c['n'])
    ev = np.stack([np.arange(m_) % c['n'][0], np.arange(m_)[::-1] %
                   c['n'][1]], axis=1)
    sc = 1 + rng.randint(0, 5, m_) * (rng.rand(m_) < 0.5)
    data = EventWithScoreData()
    data.set_event(ev, sc, score_domain=(1, 5, 1))
    r = MultinomialPLSA(k=c['k'], alpha=c['alpha'], random_state=c['seed'],
                        use_expectation=not c['mode'], maxiter=c['at'],
                        tol=0)
    r.fit(data)
    n = c['n']
    pz, pr = np.array(r.pZ_), np.array(r.pRgZ_)
    px, py = [np.vstack([np.array(t)[:k], np.ones((1, c['k']))])
              for t, k in zip((r.pXgZ_, r.pYgZ_), n)]
    iid = [rng.randint(0, k + 1, c['queries']) for k in n]
    dist = np.dot(pz * px[iid[0]] * py[iid[1]], pr.T)
    joint = dist.sum(axis=1, keepdims=True)
    dist = dist / joint
    got = np.reshape(r.predict(np.stack(iid, axis=1)), (-1,))
    must(len(got) == len(dist), 'number of predictions', len(got))
    if c['mode']:
        must(bool(np.all(np.isin(got, np.arange(1, 6)))),
             'modes are score levels', got)
        p = dist[np.arange(len(got)), got.astype(int) - 1]
        must(bool(np.all(p >= dist.max(axis=1) * (1 - 1e-9))),
             'modes of rare pairs')
    else:
        close(got, np.dot(dist, np.arange(1, 6)), 'means of rare pairs',
              rtol=1e-8, atol=1e-9)
    rec.nt(float(joint.min()) < 1e-8)
    rec.label('mode', c['mode'])
