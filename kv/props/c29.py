"""C29: recommenders built on the base classes see their training data"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.base import BaseEventRecommender
from kamrecsys.item_finder import BaseExplicitItemFinder, \
    BaseImplicitItemFinder
from kamrecsys.score_predictor import BaseScorePredictor
from ..core import sub, must, eq, close, raises
from .. import gen
from .. import models as m

BASES = {'event': BaseEventRecommender, 'score': BaseScorePredictor,
         'explicit': BaseExplicitItemFinder,
         'implicit': BaseImplicitItemFinder}


def recommender(base, drop, weights):
    """a recommender of a user, on one of the base classes"""

    class Mine(BASES[base]):
        seen = None
        asked = ()

        def fit(self, data, *args, **kwargs):
            super(Mine, self).fit(data, *args, **kwargs)
            ev, n = self.get_event()
            self.seen = {'get_event': np.array(ev), 'n': np.array(n),
                         'event': np.array(self.event),
                         'event_feature': self.event_feature,
                         'n_objects': np.array(self.n_objects)}
            if base in ('score', 'explicit'):
                self.seen['score'] = np.array(self.get_score())
                self.seen['score attribute'] = np.array(self.score)
            if drop:
                self.remove_data()

        def raw_predict(self, ev):
            self.asked = np.array(ev)
            return np.asarray(ev).dot(
                np.array(weights[:np.shape(ev)[1]], dtype=float))
    return Mine(random_state=3)


@st.composite
def one_set(draw, base):
    binary = base == 'explicit'
    c = draw(m.datasets(binary=binary, max_rows=10))
    s = len(gen.cols_of(c))
    how = draw(st.integers(0, 3))
    if how == 0 and (base == 'event' or s >= 2):
        c['index'] = 'default'
    elif how == 1:
        c['index'] = None
    else:
        # any number of columns, also repeated ones
        c['index'] = draw(st.lists(st.integers(0, s - 1), min_size=1,
                                   max_size=4))
        if base == 'implicit' and len(c['index']) < 2:
            c['index'] = [0, s - 1]
    c['form'] = draw(st.sampled_from(['list', 'tuple', 'array', 'keyword']))
    known = gen.objects_of(c)
    pools = [sorted(known[o]) * 2 + gen.unknown_ids(c['kind'], known[o], 2)
             for o in range(c['n_otypes'])]
    c['queries'] = draw(gen.rows_of(c['kind'], pools, gen.cols_of(c), 1, 6))
    c['efeat'] = draw(st.booleans())
    return c


@st.composite
def cases(draw):
    base = draw(st.sampled_from(sorted(BASES)))
    return {'base': base, 'drop': draw(st.booleans()),
            'sets': [draw(one_set(base))
                     for _ in range(draw(st.integers(1, 3)))],
            'weights': draw(st.lists(st.integers(1, 1000), min_size=12,
                                     max_size=12))}


def columns(c, base):
    s = len(gen.cols_of(c))
    if c['index'] == 'default':
        return list(range(s)) if base in ('event', 'implicit') else [0, 1]
    return list(range(s)) if c['index'] is None else c['index']


def container(c, plain):
    data = m.container(c, plain=plain)
    if c['efeat']:
        n = len(c['rows'])
        raw = gen.id_array(c['rows'], c['kind'], len(gen.cols_of(c)))
        ef = np.arange(2 * n).reshape((n, 2))
        if plain:
            data.set_event(raw, event_feature=ef)
        else:
            data.set_event(
                raw, np.array(m.scores_of(c)), event_feature=ef,
                score_domain=tuple(data.score_domain.tolist()))
    return data


def fit(rec, data, c):
    i = c['index']
    if i == 'default':
        rec.fit(data)
    elif c['form'] == 'keyword':
        rec.fit(data, event_index=i)
    elif i is None:
        rec.fit(data, None)
    else:
        i = {'list': list, 'tuple': tuple, 'array': np.array}[c['form']](i)
        rec.fit(data, i)
        if c['form'] != 'tuple':
            # the caller uses its array for something else
            i[:] = i[::-1].copy() if len(i) > 1 and i[0] != i[-1] else [0] * len(i)


def check(rec, c, base, drop, weights, plain, data):
    cols = gen.cols_of(c)
    used = columns(c, base)
    n = len(c['rows'])
    types = [cols[j] for j in used]
    known = gen.objects_of(c)
    iid = [{e: data.to_iid(o, e) for e in known[o]}
           for o in range(c['n_otypes'])]
    want = [[iid[cols[j]][r[j]] for j in used] for r in c['rows']]
    num = [len(known[o]) for o in types]
    seen = rec.seen
    eq(seen['event'], want, 'events of the selected columns')
    eq(seen['get_event'], want, 'events of the selected columns (get_event)')
    eq(seen['n_objects'], num, 'numbers of objects of the selected columns')
    eq(seen['n'], num, 'numbers of objects of the selected columns '
       '(get_event)')
    if c['efeat']:
        eq(seen['event_feature'], np.arange(2 * n).reshape((n, 2)),
           'event features')
    else:
        must(seen['event_feature'] is None, 'no event features')
    must(rec.n_events == n, 'number of events', rec.n_events)
    must(rec.s_event == len(cols), 'size of events', rec.s_event)
    must(rec.n_otypes == c['n_otypes'], 'number of types', rec.n_otypes)
    eq(rec.event_otypes, cols, 'types of columns')
    eq(rec.event_index, used, 'selected columns')
    must(rec.random_state == 3, 'random state')
    for o in range(c['n_otypes']):
        for e in known[o]:
            i = rec.to_iid(o, e)
            must(i == iid[o][e] and rec.to_eid(o, i) == e,
                 'ids of the container', o, e, i)
        raises(ValueError, lambda: rec.to_eid(o, len(known[o])),
               'no such internal id')
        for e in gen.unknown_ids(c['kind'], known[o], 1)[:3]:
            raises(ValueError, lambda: rec.to_iid(o, e),
                   'no such external id')
    raw = gen.id_array(c['rows'], c['kind'], len(cols))
    eq(rec.to_eid_event(data.event), raw, 'to_eid_event')
    eq(rec.to_iid_event(raw), data.event, 'to_iid_event')
    if base in ('score', 'explicit'):
        eq(seen['score'], m.scores_of(c), 'scores (get_score)')
        eq(seen['score attribute'], m.scores_of(c), 'scores')
        eq(rec.score_domain, data.score_domain, 'score domain')
        must(rec.n_score_levels == c['domain']['n'],
             'number of score levels', rec.n_score_levels)
        close(rec.get_score_levels(), gen.levels_of(c['domain']),
              'score levels', atol=1e-9)
        eq(rec.generate_score_bins(), data.generate_score_bins(),
           'bins of scores')
    if drop:
        must(rec.event is None and rec.event_feature is None,
             'events are removed')
        if base in ('score', 'explicit'):
            must(rec.score is None and rec.get_score() is None,
                 'scores are removed')
    # predictions ask for internal ids of the selected columns
    q = gen.id_array(c['queries'], c['kind'], len(cols))
    enc = [[iid[cols[j]].get(r[j], len(known[cols[j]])) for j in used]
           for r in c['queries']]
    p = rec.predict(q)
    eq(rec.asked, enc, 'internal ids given to raw_predict')
    sums = [float(sum(w * v for w, v in zip(weights, r))) for r in enc]
    eq(np.reshape(p, (-1,)), sums, 'what raw_predict returned')
    must(np.shape(p) == ((len(q),) if len(q) > 1 else ()),
         'shape of predictions', np.shape(p))
    for r, v in zip(q[:2], sums):
        p = rec.predict(r)
        must(np.shape(p) == () and float(p) == v,
             'prediction of one event', p, v)
    eq(rec.predict(q.tolist()), rec.predict(q), 'events given as lists')
    # events of another size
    for x in (np.repeat(q[:, :1], len(cols) + 1, axis=1), q[:, 1:],
              q[0, 1:], q[np.newaxis]):
        raises((TypeError, ValueError), lambda: rec.predict(x),
               'events of shape %r' % (np.shape(x),))
    return used, types


@sub('C29', 'base_classes', cases(), 500, 5000,
     'a choice of columns, or unknown objects, after another fit')
def base_classes(case, rec):
    c = case
    base = c['base']
    r = recommender(base, c['drop'], c['weights'])
    for i, d in enumerate(c['sets']):
        plain = base in ('event', 'implicit') and i % 2 == 0
        data = container(d, plain)
        keep = [np.array(data.event), list(data.n_objects)]
        fit(r, data, d)
        check(r, d, base, c['drop'], c['weights'], plain, data)
        eq(data.event, keep[0], 'events of the container')
        eq(data.n_objects, keep[1], 'numbers of objects of the container')
    # a later use of the container has no effect
    q = gen.id_array(d['queries'], d['kind'], len(gen.cols_of(d)))
    before = np.array(r.predict(q))
    raw = gen.id_array(d['rows'][:1], d['kind'], len(gen.cols_of(d)))
    if plain:
        data.set_event(raw)
    else:
        data.set_event(raw, np.array([1]), score_domain=(0, 1, 1))
    eq(r.predict(q), before, 'predictions after a refill of the container')
    rec.nt(len(c['sets']) > 1 and d['index'] not in ('default', None))
    rec.label(base)
    rec.label('one event', len(d['rows']) == 1)
    rec.label('all columns', d['index'] is None)
    rec.label('not two columns', d['index'] not in ('default', None) and
              len(d['index']) != 2)


# -- one recommender, the columns chosen in other ways one after another --------------

@st.composite
def again_cases(draw):
    base = draw(st.sampled_from(sorted(BASES)))
    first = draw(one_set(base))
    sets = []
    for _ in range(draw(st.integers(2, 6))):
        d = dict(first if draw(st.integers(0, 3)) else draw(one_set(base)))
        s = len(gen.cols_of(d))
        how = draw(st.integers(0, 5))
        if how < 2 and (base == 'event' or s >= 2):
            d['index'] = 'default'
        elif how == 2:
            d['index'] = None
        elif how < 5:
            # as many columns as the events have
            d['index'] = draw(st.permutations(range(s)))
        sets.append(d)
    return {'base': base, 'drop': draw(st.booleans()), 'sets': sets,
            'same': draw(st.booleans()),
            'weights': draw(st.lists(st.integers(1, 1000), min_size=12,
                                     max_size=12))}


@sub('C29', 'again', again_cases(), 250, 2500,
     'the columns are chosen in other ways')
def again(case, rec):
    c = case
    base = c['base']
    r = recommender(base, c['drop'], c['weights'])
    made = []
    for d in c['sets']:
        plain = base in ('event', 'implicit') and d['efeat']
        data = None
        for x, y in made:
            if c['same'] and all(x[k] == d[k] for k in d if k != 'index'):
                data = y
        if data is None:
            data = container(d, plain)
            made.append((d, data))
        fit(r, data, d)
        check(r, d, base, c['drop'], c['weights'], plain, data)
    used = [columns(d, base) for d in c['sets']]
    rec.nt(any(used[i] != used[i + 1] for i in range(len(used) - 1)))
    rec.label('an order and then none', any(
        sorted(used[i]) == used[i + 1] != used[i] and
        c['sets'][i + 1]['index'] in ('default', None)
        for i in range(len(used) - 1)))
    rec.label('the same container', len(made) < len(c['sets']))


# -- many objects and events ---------------------------------------------------------

@st.composite
def large_cases(draw):
    c = draw(m.large('pmf', huge=True))
    c['base'] = draw(st.sampled_from(sorted(BASES)))
    c['levels'] = 2 if c['base'] == 'explicit' else c['levels']
    c['index'] = draw(st.sampled_from([[0, 1], [1, 0], [1, 1], [0, 0]]))
    c['drop'] = draw(st.booleans())
    return c


@sub('C29', 'large', large_cases(), 20, 200,
     'more users or items than 8 bits count')
def large(case, rec):
    c = case
    data, raw, sc = m.large_container(c)
    event = np.array(data.event)
    r = recommender(c['base'], c['drop'], [1, 100000])
    r.fit(data, event_index=c['index'])
    eq(r.seen['event'], event[:, c['index']], 'events of selected columns')
    eq(r.seen['n_objects'], [len(data.eid[i]) for i in c['index']],
       'numbers of objects')
    if c['base'] in ('score', 'explicit'):
        eq(r.seen['score'], sc, 'scores')
    rng = np.random.RandomState(c['seed'])
    at = rng.randint(0, len(raw), 1500)
    q = raw[at].copy()
    want = event[at].copy()
    # some unknown objects
    unknown = rng.rand(*q.shape) < 0.1
    q[unknown] = 'zzz' if c['kind'] == 'str' else np.max(raw) + 5
    for j in range(2):
        want[unknown[:, j], j] = len(data.eid[j])
    p = r.predict(q)
    eq(r.asked, want[:, c['index']], 'internal ids given to raw_predict')
    eq(p, want[:, c['index'][0]] + 100000.0 * want[:, c['index'][1]],
       'what raw_predict returned')
    eq(data.event, event, 'events of the container')
    rec.nt(max(c['n']) > 256)
    rec.label(c['base'])
