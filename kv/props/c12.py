"""C12: fitting is deterministic, repeatable and isolated"""
import copy
import pickle
import random
import json
import sys
import threading
from hypothesis import strategies as st
import numpy as np
from scipy import sparse
from ..core import sub, must, eq
from .. import gen
from .. import models as m
from .c10 import queries


@st.composite
def cases(draw, names):
    name = draw(st.sampled_from(names))
    c = draw(m.for_model(name))
    c['name'] = name
    c['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
    c['k'] = draw(st.integers(1, 3))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['maxiter'] = draw(st.sampled_from([1, 2, 4]))
    c['queries'] = draw(queries(c))
    c['options'] = draw(st.sampled_from(
        ['maxiter', 'options', 'nothing', 'no limit', 'BFGS', 'L-BFGS-B',
         'TNC']))
    least = draw(st.sampled_from([0, 1, 2, 3]))
    c['before'] = draw(st.lists(
        st.sampled_from(['same', 'other', 'other', 'failed', 'predict',
                         'settings']),
        min_size=least, max_size=4))
    if any(b in ('other', 'failed') for b in c['before']):
        c['other'] = draw(m.for_model(name))
    c['features'] = draw(st.booleans())
    least = draw(st.sampled_from([0, 1, 2, 3]))
    c['after'] = draw(st.lists(st.sampled_from(
        ['refill', 'filter', 'binarize', 'feature', 'fit other',
         'predict']), min_size=least, max_size=4))
    return c


def state(data):
    """deep copy of everything public in a container"""
    return {k: copy.deepcopy(v) for k, v in vars(data).items()
            if not k.startswith('_')}


def same_state(a, b, what):
    must(sorted(a) == sorted(b), what + ': attributes', sorted(b))
    for k in a:
        same_value(a[k], b[k], what + ': ' + k)


def same_value(a, b, what):
    if isinstance(a, np.ndarray) and a.dtype != object:
        must(isinstance(b, np.ndarray) and a.dtype == b.dtype,
             what + ': type', a, b)
        eq(b, a, what)
    elif isinstance(a, (list, tuple, np.ndarray)):
        must(len(a) == len(b), what, a, b)
        for x, y in zip(a, b):
            same_value(x, y, what)
    elif isinstance(a, dict):
        must(set(a) == set(b), what, a, b)
        for x in a:
            same_value(a[x], b[x], what)
    else:
        must(type(a) == type(b) and a == b, what, a, b)


def build(c):
    data = m.container(c)
    if c['features']:
        rng = np.random.RandomState(c['seed'])
        data.set_event(
            gen.id_array(c['rows'], c['kind'], len(gen.cols_of(c))),
            np.array(m.scores_of(c)),
            score_domain=tuple(data.score_domain.tolist()),
            event_feature=rng.normal(size=(len(c['rows']), 2)))
        for o in range(c['n_otypes']):
            if len(data.eid[o]):
                data.set_feature(o, np.array(data.eid[o]), rng.normal(
                    size=(len(data.eid[o]), 2)))
    return data


def options_of(c):
    i, j = m.index_of(c)
    pairs = set((r[i], r[j]) for r in c['rows'])
    every = len(pairs) == len(set(p[0] for p in pairs)) * len(
        set(p[1] for p in pairs))
    if c['options'] == 'nothing' and not (c['name'] == 'ilpmf' and every):
        # (a global bias without limit takes many thousands of iterations)
        return {}
    if c['name'].startswith('plsa'):
        return {'maxiter': c['maxiter'], 'tol': 1e-9}
    if c['options'] == 'no limit':
        return {'options': {'gtol': 1e-3}, 'tol': 1e-2}
    if c['options'] == 'options':
        return {'options': {'maxiter': c['maxiter'], 'gtol': 1e-4},
                'tol': 1e-6, 'method': 'CG'}
    if c['options'] not in ('maxiter', 'nothing'):
        return {'method': c['options'], 'maxiter': c['maxiter'],
                'tol': 1e-7}
    return {'maxiter': c['maxiter']}


def maker(c, opts):
    return m.any_maker(c['name'], c['C'], c['k'], number(c['seed']), **opts)


def number(seed, i=0):
    """the seed as an integer of some type"""
    return [int, int, np.int64, np.uint32, np.int32][(seed + i) % 5](seed)


def snap(c, rec, q):
    return (m.all_params(c['name'], rec), copy.deepcopy(rec.fit_results_),
            np.array(rec.predict(q)), [float(rec.predict(r)) for r in q])


def same_snap(a, b, what):
    m.same(a[0], b[0], what + ': learned parameters')
    m.same_results(a[1], b[1], what + ': fitting results')
    eq(b[2], a[2], what + ': predictions')
    eq(b[3], a[3], what + ': predictions of single events')


def arrays_in(obj, depth=0):
    """every numpy array or sparse matrix reachable from a recommender"""
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for x in obj.ravel():
                for y in arrays_in(x, depth + 1):
                    yield y
        else:
            yield obj
            if obj.base is not None and depth < 6:
                for y in arrays_in(obj.base, depth + 1):
                    yield y
    elif sparse.issparse(obj):
        yield obj.toarray()
    elif depth < 6:
        if isinstance(obj, dict):
            obj = list(obj.values())
        elif hasattr(obj, '__dict__') and not isinstance(
                obj, (type, np.random.RandomState)) and not callable(obj):
            obj = list(vars(obj).values())
        if isinstance(obj, (list, tuple)):
            for x in obj:
                for y in arrays_in(x, depth + 1):
                    yield y


def run(case, rec):
    c = case
    q = gen.id_array(c['queries'], c['kind'], len(gen.cols_of(c)))
    np.random.seed(c['seed'] % 1000)
    random.seed(5)
    g0, p0 = np.random.get_state(), random.getstate()
    err = np.geterr()
    opts = options_of(c)
    opts_before = json.dumps(opts, sort_keys=True)
    data = build(c)
    s0 = state(data)

    a = maker(c, opts)
    m.fit(a, data, c)
    first = snap(c, a, q)
    same_state(s0, state(data), 'fitting does not change the container')
    must(json.dumps(opts, sort_keys=True) == opts_before,
         'options given by the caller are not changed', opts, opts_before)

    # fresh recommender, fresh data, the same options once more
    b = maker(c, opts)
    m.fit(b, build(c), c)
    same_snap(first, snap(c, b, q), 'the same fit again')

    # a recommender with a history
    d = maker(c, opts)
    fitted = None
    for h in c['before']:
        if h == 'same':
            m.fit(d, data, c)
            fitted = c
        elif h == 'other':
            m.fit(d, m.container(c['other']), c['other'])
            fitted = c['other']
        elif h == 'settings':
            # other settings for a while
            how = 'set_params' if c['seed'] % 2 else 'attributes'
            m.settings(d, how, c['C'] + 0.7, c['k'] % 3 + 1, c['seed'] // 2)
            m.fit(d, data, c)
            m.settings(d, how, c['C'], c['k'], c['seed'])
            fitted = c
        elif h == 'predict':
            # events of the data it was fitted to, and those asked later
            if fitted is not None:
                other = gen.id_array(fitted['rows'], fitted['kind'])
                for r in other:
                    d.predict(r)
                d.predict(other)
                if other.shape[1] == q.shape[1]:
                    for r in q:
                        d.predict(r)
                    d.predict(q)
        else:
            # must fail: a container without events of the right kind;
            # what a recommender predicts after that is left open
            fitted = None
            try:
                d.fit('not a container')
            except TypeError:
                pass
            else:
                must(False, 'fit to a string')
            if c['name'] == 'lpmf':
                bad = m.container(c)
                bad.score = np.ones_like(bad.score)
                try:
                    m.fit(d, bad, c)
                except ValueError:
                    pass
                else:
                    must(False, 'fit to uniform scores')
    m.fit(d, data, c)
    same_snap(first, snap(c, d, q), 'a fit after %s' % '/'.join(c['before']))
    # predictions of single events and of all, by another model before
    x = maker(dict(c, seed=c['seed'] // 2 + 1), opts)
    m.fit(x, data, c)
    for r in q:
        x.predict(r)
    x.predict(q)
    x.set_params(random_state=number(c['seed']))
    m.fit(x, data, c)
    same_snap(first, snap(c, x, q), 'a fit after a model of another seed')
    # the others were not affected
    same_snap(first, snap(c, a, q), 'fitting other recommenders')
    same_snap(first, snap(c, b, q), 'fitting other recommenders')

    # random states
    g1 = np.random.get_state()
    must(g0[0] == g1[0] and np.array_equal(g0[1], g1[1]) and
         g0[2:] == g1[2:], 'the global random state of numpy is left alone')
    must(random.getstate() == p0, 'the global random state is left alone')
    eq(np.geterr(), err, 'error handling of numpy is left alone')

    # no data left
    must(a.event is None, 'no training events are held', a.event)
    must(getattr(a, 'score', None) is None, 'no training scores are held')
    must(getattr(a, 'event_feature', None) is None,
         'no training event features are held')
    n = len(c['rows'])
    others = set()
    for t in range(c['n_otypes']):
        others |= {len(data.eid[t]), len(data.eid[t]) + 1}
    others |= {1, 2, 3, 4, c['k'], data.n_score_levels, len(gen.cols_of(c))}
    others.add(int(first[1].get('n_parameters', 0)))
    others |= {o * c['k'] for o in others}
    distinct = n not in others
    if distinct:
        for x in arrays_in(a):
            must(n not in x.shape, 'no array of the size of the training '
                 'events is held', x)
    for x in arrays_in(a):
        for v in (data.event, data.score):
            must(not np.shares_memory(x, v),
                 'the training data are not referred to')

    # later use of the container
    used = build(c)
    e = maker(c, opts)
    m.fit(e, used, c)
    for op in c['after']:
        if op == 'refill':
            used.set_event(
                gen.id_array(c['rows'][:1] * 2, c['kind']), np.array([0, 1]),
                score_domain=(0, 1, 1))
        elif op == 'filter':
            used.filter_event(np.arange(len(used.event)) % 2 == 0)
            used = used.filter_event(np.arange(len(used.event)) == 0)
        elif op == 'binarize':
            used.binarize_score()
        elif op == 'feature':
            o = gen.cols_of(c)[0]
            used.set_feature(o, np.array(used.eid[o]),
                             np.zeros(len(used.eid[o])))
        elif op == 'fit other':
            m.fit(maker(c, opts), data, c)
        else:
            e.predict(q[::-1])
    same_snap(first, snap(c, e, q), 'later use of the container: %s' %
              '/'.join(c['after']))

    # pickling and copying
    kinds = [('pickled', pickle.loads(pickle.dumps(a))),
             ('pickled (2)', pickle.loads(pickle.dumps(a, protocol=2))),
             ('copied', copy.copy(a)), ('deeply copied', copy.deepcopy(a))]
    for what, x in kinds:
        must(type(x) is type(a), 'class of a %s recommender' % what)
        same_snap(first, snap(c, x, q), 'a %s recommender' % what)
    for what, x in (kinds[0], kinds[3]):
        m.fit(x, data, c)
        same_snap(first, snap(c, x, q), 'fit of a %s recommender' % what)
        if 'other' in c:
            m.fit(x, m.container(c['other']), c['other'])
    same_snap(first, snap(c, a, q), 'fitting copies')
    # a shallow copy keeps what it predicts when the other one is fitted
    x = copy.copy(a)
    keep = np.array(a.predict(q))
    x.random_state = c['seed'] + 77
    m.fit(x, data, c)
    if 'other' in c:
        m.fit(x, m.container(c['other']), c['other'])
    must(np.array_equal(keep, a.predict(q)),
         'predictions after a copy was fitted')

    rec.nt(len(c['before']) > 0 and len(c['after']) > 0 and n > 2)
    rec.label('other data before', 'other' in c['before'])
    rec.label('other settings before', 'settings' in c['before'])
    rec.label('failed fit before', 'failed' in c['before'])
    rec.label('distinct number of events', distinct)
    rec.label(c['name'])
    rec.label('options:' + c['options'])


RULE = 'fits before and use of the container afterwards'


@sub('C12', 'factorization', cases(['pmf', 'lpmf', 'ilpmf']), 300, 3000,
     RULE)
def factorization(case, rec):
    run(case, rec)


@sub('C12', 'plsa', cases(['plsa', 'plsam']), 250, 2500, RULE)
def plsa(case, rec):
    run(case, rec)


# -- different seeds -----------------------------------------------------------

@st.composite
def seed_cases(draw):
    name = draw(st.sampled_from(m.ALL))
    c = draw(m.for_model(name))
    c['name'] = name
    c['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
    c['k'] = draw(st.integers(2, 3))
    c['seeds'] = draw(st.lists(st.integers(0, 2 ** 31 - 1), min_size=2,
                               max_size=4, unique=True))
    c['order'] = draw(st.lists(st.integers(0, len(c['seeds']) - 1),
                               min_size=2, max_size=8))
    c['noise'] = draw(st.booleans())
    return c


@sub('C12', 'seeds', seed_cases(), 200, 2000,
     'a seed recurs after another seed was used')
def seeds(case, rec):
    c = case
    data = m.container(c)
    seen = {}
    for j, i in enumerate(c['order']):
        if c['noise']:
            np.random.uniform(size=3)
        r = m.fit(m.any_maker(c['name'], c['C'], c['k'],
                              number(c['seeds'][i], j), maxiter=2), data, c)
        s = m.all_params(c['name'], r)
        if i in seen:
            m.same(seen[i], s, 'the same seed gives the same model')
        seen[i] = s
    o = c['order']
    rec.nt(any(o[j] == o[0] and len(set(o[:j])) > 1
               for j in range(1, len(o))))


# -- several recommenders are trained at the same time ------------------------------

@st.composite
def together_cases(draw):
    c = {'jobs': [], 'way': draw(st.sampled_from(
        ['nested', 'nested', 'threads']))}
    for i in range(draw(st.integers(2, 4))):
        names = m.ALL
        if c['way'] == 'nested' and i == 0:
            # only these report their progress
            names = ['pmf', 'lpmf', 'ilpmf']
        name = draw(st.sampled_from(names))
        j = draw(m.for_model(name))
        j['name'] = name
        j['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
        j['k'] = draw(st.integers(1, 3))
        j['seed'] = draw(st.integers(0, 2 ** 31 - 1))
        j['maxiter'] = draw(st.integers(1, 4))
        j['queries'] = draw(queries(j))
        c['jobs'].append(j)
    c['same data'] = draw(st.integers(0, 3)) == 0
    if c['same data']:
        # the same container for recommenders of one kind
        for j in c['jobs'][1:]:
            for k in list(j):
                if k not in ('C', 'k', 'seed', 'maxiter'):
                    del j[k]
            j.update({k: v for k, v in c['jobs'][0].items() if k not in j})
    return c


def short(c, rec, q):
    r = rec.fit_results_
    return (m.all_params(c['name'], rec),
            [r.get(k) for k in ('initial_loss', 'final_loss', 'status',
                                'n_iterations', 'n_users', 'n_items',
                                'n_events', 'n_parameters', 'message')],
            np.array(rec.predict(q)))


def same_short(a, b, what):
    m.same(a[0], b[0], what + ': learned parameters')
    must(a[1] == b[1], what + ': fitting results', a[1], b[1])
    eq(b[2], a[2], what + ': predictions')


@sub('C12', 'together', together_cases(), 120, 1200,
     'recommenders of different sizes')
def together(case, rec):
    """training of one during that of another, or in several threads"""
    jobs = case['jobs']
    if case['same data']:
        one = m.container(jobs[0])
        data = [one] * len(jobs)
    else:
        data = [m.container(j) for j in jobs]
    qs = [gen.id_array(j['queries'], j['kind'], len(gen.cols_of(j)))
          for j in jobs]

    def train(i, **kw):
        j = jobs[i]
        r = m.any_maker(j['name'], j['C'], j['k'], j['seed'],
                        maxiter=j['maxiter'], **kw)
        m.fit(r, data[i], j)
        return r, short(j, r, qs[i])

    alone = [train(i) for i in range(len(jobs))]
    if case['way'] == 'nested':
        seen = []

        def progress(*args):
            if len(seen) < 3:
                i = 1 + len(seen) % (len(jobs) - 1)
                seen.append((i, train(i)[1],
                             short(jobs[i], alone[i][0], qs[i])))

        got = train(0, callback=progress)[1]
        same_short(alone[0][1], got, 'others were trained meanwhile')
        for i, a, b in seen:
            same_short(alone[i][1], a, 'training within another one')
            same_short(alone[i][1], b, 'predictions during another training')
        rec.label('trained within', bool(seen))
    else:
        out, switch = {}, sys.getswitchinterval()

        def work(i):
            try:
                out[i] = train(i)[1]
            except Exception as e:
                out[i] = e

        threads = [threading.Thread(target=work, args=(i,))
                   for i in range(len(jobs))]
        sys.setswitchinterval(1e-5)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(switch)
        for i in range(len(jobs)):
            if isinstance(out[i], Exception):
                raise out[i]
            same_short(alone[i][1], out[i], 'training in several threads')
    for j, q, (r, s0) in zip(jobs, qs, alone):
        same_short(s0, short(j, r, q), 'after all')
    rec.nt(len(set((j['k'], len(j['rows'])) for j in jobs)) > 1)
    rec.label(case['way'])
    rec.label('one container', case['same data'])


# -- many events ----------------------------------------------------------------------

@st.composite
def large_cases(draw):
    name = draw(st.sampled_from(m.ALL))
    c = draw(m.large(name))
    c['name'] = name
    c['maxiter'] = draw(st.sampled_from([1, 2]))
    c['before'] = draw(st.sampled_from(['nothing', 'same', 'part']))
    return c


@sub('C12', 'large', large_cases(), 25, 250,
     'more users or items than 8 bits count')
def large(case, rec):
    c = case
    data, raw, _ = m.large_container(c)
    keep = state(data)

    def make():
        return m.any_maker(c['name'], c['C'], c['k'], c['seed'],
                           maxiter=c['maxiter'])
    a, b = make(), make()
    if c['before'] == 'same':
        m.fit(b, data, c)
    elif c['before'] == 'part':
        m.fit(b, data.filter_event(np.arange(2 * len(raw) // 3)), c)
    m.fit(a, data, c)
    m.fit(b, data, c)
    same_state(keep, state(data), 'container of many events after fitting')
    q = raw[np.random.RandomState(c['seed']).randint(0, len(raw), 1100)]

    def view(x):
        return (m.all_params(c['name'], x), copy.deepcopy(x.fit_results_),
                np.array(x.predict(q)), [float(x.predict(q[7]))])
    first = view(a)
    same_snap(first, view(b), 'fit to many events after others')
    same_snap(first, view(pickle.loads(pickle.dumps(a))), 'a pickled one')
    if len(raw) not in [len(e) + i for e in data.eid for i in (0, 1)]:
        for x in arrays_in(a):
            must(len(raw) not in x.shape, 'no array of the size of the '
                 'training events is held', x)
        rec.label('distinct number of events')
    data.set_event(raw[:2], np.array([0, 1]), score_domain=(0, 1, 1))
    same_snap(first, view(a), 'after a refill')
    rec.nt(max(c['n']) > 256)
    rec.label(c['name'])
