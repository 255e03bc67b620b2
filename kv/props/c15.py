"""C15: recommenders accept only data of the right kind"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import BaseData, EventData, EventWithScoreData
from ..core import sub, must, eq, raises
from .. import gen
from .. import models as m
from .c10 import queries, query_array


@st.composite
def binary_cases(draw):
    c = draw(m.datasets(min_rows=1))
    n = len(c['rows'])
    c['C'] = 1.0
    what = draw(st.sampled_from(['binary', 'binary', 'uniform', 'levels',
                                 'halves', 'minus', 'almost']))
    el = {'binary': [0, 1], 'uniform': [draw(st.integers(0, 1))],
          'levels': [0, 1, 2], 'halves': [0, 0.5, 1], 'minus': [-1, 0, 1],
          'almost': [0, 1, 1, 1 + 2 ** -40, 1 - 2 ** -40]}[what]
    c['values'] = draw(st.lists(st.sampled_from(el), min_size=n, max_size=n))
    c['float'] = draw(st.booleans())
    c['sctype'] = draw(gen.score_types)
    c['triple'] = draw(st.sampled_from(
        [[0, 1, 1]] * 6 + [[0.0, 1.0, 1.0], [0, 1, 0.5], [0, 2, 1],
                           [-1, 1, 1], [-1, 1, 2], [1, 2, 1], [0, 5, 1],
                           [0, 2, 2], [0, 1, 0.25], [0, 1, 0.75],
                           [0, 1, 0.9], [0, 1, 1.25], [0, 1, 1.4],
                           [0.25, 1, 0.75], [0, 0.9, 0.9], [0, 1.1, 1.1],
                           [-0.25, 1, 1], [0, 1, 2]]))
    c['threshold'] = draw(st.sampled_from(
        ['no', 'no', 'no', 'default', 0, 0.5, 1]))
    c['keep'] = draw(st.one_of(st.none(), st.lists(
        st.booleans(), min_size=n, max_size=n).filter(any)))
    return c


@sub('C15', 'binary', binary_cases(), 900, 9000,
     'rejected although both or accepted after binarizing or filtering')
def binary(case, rec):
    c = case
    data = EventWithScoreData(n_otypes=c['n_otypes'],
                              event_otypes=c['event_otypes'])
    sc = gen.retype_scores(np.array(
        c['values'], dtype=float if c['float'] else None), c['sctype'])
    data.set_event(
        gen.id_array(c['rows'], c['kind'], len(gen.cols_of(c))), sc,
        score_domain=tuple(c['triple']))
    values, triple = list(c['values']), [float(v) for v in c['triple']]
    th = c['threshold']
    if th != 'no':
        data.binarize_score(*([] if th == 'default' else [th]))
        cut = sum(triple[:2]) / 2 if th == 'default' else th
        values = [1 if v > cut else 0 for v in values]
        triple = [0.0, 1.0, 1.0]
    if c['keep'] is not None:
        data = data.filter_event(np.array(c['keep']))
        values = [v for v, k in zip(values, c['keep']) if k]
    accept = triple == [0.0, 1.0, 1.0] and set(values) == {0, 1}
    model = m.quiet_maker('lpmf', 1.0, 1, 1, maxiter=1)
    if accept:
        m.fit(model, data, c)
        must(model.bu_ is not None and model.event is None, 'trained')
        p = np.reshape(model.predict(gen.id_array(
            c['rows'], c['kind'])), (-1,))
        must(bool(np.all((p > 0) & (p < 1))), 'probabilities', p)
    else:
        raises(ValueError, lambda: m.fit(model, data, c),
               'data for the explicit item finder: scores %s, domain %s' % (
                   values, triple))
    # other recommenders take the same data
    other = m.any_maker('ilpmf', 1.0, 1, 1, maxiter=1)
    m.fit(other, data, c)
    if len(set(values)) > 1:
        m.fit(m.quiet_maker('pmf', 1.0, 1, 1, maxiter=1), data, c)
    rec.nt((not accept and len(set(values)) > 1) or
           (accept and (th != 'no' or c['keep'] is not None)))
    rec.label('accepted', accept)
    rec.label('scores:' + sc.dtype.str)
    rec.label('uniform scores', len(set(values)) == 1)
    rec.label('wrong domain only', set(values) == {0, 1} and not accept)


# -- classes of data -------------------------------------------------------------

class MyEvents(EventData):
    pass


class MyScores(EventWithScoreData):
    pass


@st.composite
def class_cases(draw):
    name = draw(st.sampled_from(m.ALL))
    c = draw(m.datasets(binary=True))
    c['name'] = name
    c['what'] = draw(st.sampled_from(
        ['EventData', 'EventWithScoreData', 'MyEvents', 'MyScores', 'none',
         'array', 'list', 'dict', 'str', 'number', 'class', 'recommender',
         'look-alike', 'BaseData', 'MyObjects']))
    c['fitted'] = draw(st.booleans())
    return c


class MyObjects(BaseData):
    """a container of objects, with all attributes of events"""

    def __init__(self, data):
        super(MyObjects, self).__init__(n_otypes=data.n_otypes)
        self.__dict__.update(vars(data))


class LookAlike(object):
    """has the attributes of a container, but is none"""

    def __init__(self, data):
        self.__dict__.update(vars(data))


@sub('C15', 'classes', class_cases(), 500, 5000,
     'a container of a subclass or without scores')
def classes(case, rec):
    c = case
    raw = gen.id_array(c['rows'], c['kind'], len(gen.cols_of(c)))
    full = m.container(c)
    what = c['what']
    if what in ('EventData', 'MyEvents'):
        data = (EventData if what == 'EventData' else MyEvents)(
            n_otypes=c['n_otypes'], event_otypes=c['event_otypes'])
        data.set_event(raw)
    elif what in ('EventWithScoreData', 'MyScores'):
        data = (MyScores if what == 'MyScores' else EventWithScoreData)(
            n_otypes=c['n_otypes'], event_otypes=c['event_otypes'])
        data.set_event(raw, np.array(c['scores']), score_domain=(0, 1, 1))
    else:
        data = {'none': None, 'array': raw, 'list': c['rows'],
                'dict': {'event': raw}, 'str': 'data', 'number': 3,
                'class': EventWithScoreData, 'look-alike': LookAlike(full),
                'BaseData': BaseData(n_otypes=c['n_otypes']),
                'MyObjects': MyObjects(full),
                'recommender': m.fit(m.any_maker(
                    c['name'], 1.0, 1, 0, maxiter=1), full, c)}[what]
    model = m.any_maker(c['name'], 1.0, 1, 0, maxiter=1)
    if c['name'] == 'lpmf':
        eq(model.score_domain, [0, 1, 1], 'the fixed domain of scores')
        must(model.n_score_levels == 2, 'the fixed number of score levels')
    if c['fitted']:
        m.fit(model, full, c)
    ok = what in ('EventWithScoreData', 'MyScores') or (
        c['name'] == 'ilpmf' and what in ('EventData', 'MyEvents'))
    if ok:
        m.fit(model, data, c)
        must(np.size(model.predict(raw)) == len(c['rows']), 'predictions')
        if c['name'] != 'ilpmf':
            eq(model.score_domain, data.score_domain, 'domain of scores')
            must(model.n_score_levels == 2, 'number of score levels')
    else:
        raises(TypeError, lambda: m.fit(model, data, c),
               '%s given to %s' % (what, c['name']))
    rec.nt(what in ('EventData', 'MyEvents', 'MyScores'))
    rec.label('accepted', ok)
    rec.label(what)


# -- predictions are probabilities ------------------------------------------------

@st.composite
def extreme_cases(draw):
    name = draw(st.sampled_from(['lpmf', 'ilpmf']))
    c = draw(m.for_model(name))
    c['name'] = name
    c['k'] = draw(st.integers(1, 3))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['scale'] = draw(st.sampled_from([1.0, 10.0, 40.0, 1e3, 1e8, 1e150]))
    c['queries'] = draw(queries(c, max_rows=12))
    c['dtype'] = None
    return c


@sub('C15', 'probabilities', extreme_cases(), 500, 5000,
     'the parameters are far outside of the range of the sigmoid')
def probabilities(case, rec):
    c = case
    data = m.container(c)
    rng = np.random.RandomState(c['seed'])
    model = m.fit(m.quiet_maker(
        c['name'], 1.0, c['k'], 0, method=m.Probe(
            lambda f, g, x0, o: m.result(
                rng.normal(0, c['scale'], len(x0))))), data, c)
    q = query_array(c, c['queries'] + c['rows'])
    with np.errstate(all='ignore'):
        p = model.predict(q)
    must(bool(np.all(np.isfinite(p))), 'predictions are finite', p)
    must(bool(np.all((p > 0) & (p < 1))),
         'predictions are strictly between zero and one', p)
    for row in q[:3]:
        with np.errstate(all='ignore'):
            v = float(model.predict(row))
        must(0 < v < 1, 'prediction of one event', v)
    rec.nt(c['scale'] >= 1e3)
    rec.label('saturated', bool(np.any(p < 1e-14)))


# -- many scores ------------------------------------------------------------------------

@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([300, 1025, 5000, 20000])),
            'what': draw(st.sampled_from(
                ['binary', 'uniform', 'single', 'single', 'odd', 'odd'])),
            'odd': draw(st.sampled_from([0.5, 2, -1, 1 + 2 ** -40])),
            'at': draw(st.floats(0, 1, exclude_max=True)),
            'bit': draw(st.integers(0, 1)),
            'seed': draw(st.integers(0, 10 ** 6))}


@sub('C15', 'large', large_cases(), 40, 400,
     'one of many scores decides')
def large(case, rec):
    c = case
    rng = np.random.RandomState(c['seed'])
    n = c['n']
    sc = rng.randint(0, 2, n).astype(float)
    at = int(c['at'] * n)
    if c['what'] in ('uniform', 'single'):
        sc[:] = c['bit']
    if c['what'] == 'single':
        sc[at] = 1 - c['bit']
    elif c['what'] == 'odd':
        sc[at] = c['odd']
    data = EventWithScoreData()
    data.set_event(rng.randint(0, 12, (n, 2)), sc, score_domain=(0, 1, 1))
    model = m.quiet_maker('lpmf', 1.0, 1, 1, maxiter=0)
    if c['what'] in ('binary', 'single'):
        model.fit(data)
        must(model.bu_ is not None, 'trained')
    else:
        raises(ValueError, lambda: model.fit(data),
               'many scores, one of which is not binary, or uniform ones')
    rec.nt(c['what'] in ('single', 'odd'))
    rec.label(c['what'])
