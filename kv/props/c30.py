"""C30: a filtered container is as good as a freshly filled one"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from ..core import sub, must, eq, close
from .. import gen
from .. import models as m
from .c10 import queries


@st.composite
def chains(draw, n):
    """masks, one after another; the last one may be anything"""
    return [{'bits': draw(st.lists(st.booleans(), min_size=1, max_size=n)),
             'index': draw(st.booleans()),
             'order': draw(st.sampled_from(['up', 'up', 'down', 'twice']))}
            for _ in range(draw(st.integers(1, 3)))]


def apply_chain(data, c):
    """(filtered container, positions of the events left)"""
    at = list(range(len(c['rows'])))
    for f in c['chain']:
        bits = [f['bits'][i % len(f['bits'])] for i in range(len(at))]
        pick = [i for i, b in enumerate(bits) if b]
        if not pick and c['nonempty']:
            pick, bits = [0], [i == 0 for i in range(len(at))]
        if f['index'] and f['order'] == 'down':
            pick = pick[::-1]
        elif f['index'] and f['order'] == 'twice':
            pick = pick[1:] + pick[:2]
        arg = np.array(pick, dtype=int) if f['index'] else np.array(
            bits, dtype=bool)
        data = data.filter_event(arg)
        at = [at[i] for i in pick]
    return data, at


def fill(c, at, cls):
    """a new container of some of the events"""
    data = cls(n_otypes=c['n_otypes'], event_otypes=c['event_otypes'])
    s = len(gen.cols_of(c))
    raw = gen.id_array(c['rows'], c['kind'], s)[at].reshape((-1, s))
    kw = {}
    if c['efeat']:
        kw['event_feature'] = np.array(
            [(i, i / 4.0) for i in at], dtype=[('a', int), ('b', float)])
    if cls is EventWithScoreData:
        dom = c['domain']
        triple = (0, 1, 1) if (dom['a'], dom['s'], dom['q'], dom['n']) == (
            0, 1, 1, 2) else gen.triple_of(dom)
        kw['score_domain'] = triple
        data.set_event(raw, np.array(m.scores_of(c), dtype=float)[at], **kw)
    else:
        data.set_event(raw, **kw)
    return data


def feature(data, c):
    """features of all objects by their external ids"""
    for o in c['features']:
        o = o % c['n_otypes']
        ids = sorted(set(
            e for r in c['rows'] for j, e in enumerate(r)
            if gen.cols_of(c)[j] == o))
        if ids and len(data.eid[o]):
            arr = gen.id_array([[e] for e in ids], c['kind'])[:, 0]
            data.set_feature(o, arr, np.arange(len(ids)) * 10 + o)


def same_table(a, b, what):
    must(len(a) == len(b), what + ': number of types')
    for x, y in zip(a, b):
        if x is None or y is None:
            must(x is None and y is None, what, x, y)
        else:
            eq(x, y, what)


def same_container(a, b, what):
    must(type(a) is type(b), what + ': class', type(a), type(b))
    for k in ('n_otypes', 's_event', 'n_events'):
        must(getattr(a, k) == getattr(b, k), what + ': ' + k,
             getattr(a, k), getattr(b, k))
    for k in ('n_objects', 'event_otypes', 'event'):
        eq(getattr(a, k), getattr(b, k), what + ': ' + k)
    same_table(a.eid, b.eid, what + ': external ids')
    same_table(a.feature, b.feature, what + ': features of objects')
    for x, y in zip(a.iid, b.iid):
        must(dict(x) == dict(y), what + ': internal ids', x, y)
    if a.event_feature is None or b.event_feature is None:
        must(a.event_feature is None and b.event_feature is None,
             what + ': features of events')
    else:
        eq(a.event_feature, b.event_feature, what + ': features of events')
    if isinstance(a, EventWithScoreData):
        eq(a.score, b.score, what + ': scores')
        eq(a.score_domain, b.score_domain, what + ': score domain')
        must(a.n_score_levels == b.n_score_levels, what + ': score levels')
        eq(a.get_score_levels(), b.get_score_levels(), what + ': levels')
        eq(a.digitize_score(), b.digitize_score(), what + ': digits')


@st.composite
def cases(draw):
    c = draw(m.datasets(max_rows=18))
    c['chain'] = draw(chains(18))
    c['nonempty'] = draw(st.integers(0, 5)) > 0
    c['scored'] = draw(st.booleans())
    c['efeat'] = draw(st.booleans())
    c['features'] = draw(st.lists(st.integers(0, 2), max_size=2))
    c['late'] = draw(st.booleans())
    c['queries'] = draw(queries(c))
    c['then'] = draw(st.lists(st.booleans(), min_size=1, max_size=9))
    return c


@sub('C30', 'containers', cases(), 600, 6000,
     'some events and objects are gone')
def containers(case, rec):
    c = case
    cls = EventWithScoreData if c['scored'] else EventData
    full = fill(c, list(range(len(c['rows']))), cls)
    if not c['late']:
        feature(full, c)
    a, at = apply_chain(full, c)
    b = fill(c, at, cls)
    feature(b, c)
    if c['late']:
        feature(a, c)
    if not at:
        # features of no objects
        for o in range(c['n_otypes']):
            must(len(a.eid[o]) == 0 == a.n_objects[o], 'no objects are left')
        rec.label('nothing left')
        return
    same_container(a, b, 'filtered and new container')
    # conversion of other events
    q = gen.id_array(c['queries'], c['kind'], len(gen.cols_of(c)))
    eq(a.to_iid_event(q), b.to_iid_event(q), 'encoded events')
    eq(a.to_eid_event(a.event), b.to_eid_event(b.event), 'decoded events')
    # the same operations afterwards
    bits = np.array([c['then'][i % len(c['then'])] for i in range(len(at))])
    if bits.any():
        same_container(a.filter_event(bits), b.filter_event(bits),
                       'filtered again')
    if c['scored']:
        a.binarize_score()
        b.binarize_score()
        same_container(a, b, 'binarized')
    rec.nt(len(at) < len(c['rows']) and
           any(len(x) < len(y) for x, y in zip(a.eid, full.eid)))
    rec.label('chain', len(c['chain']) > 1)
    rec.label('object features', bool(c['features']))


@st.composite
def fit_cases(draw):
    name = draw(st.sampled_from(m.ALL))
    c = draw(m.for_model(name))
    c['name'] = name
    c['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
    c['k'] = draw(st.integers(1, 3))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['maxiter'] = draw(st.sampled_from([0, 1, 2, 3]))
    c['chain'] = draw(chains(14))
    c['nonempty'] = True
    c['efeat'] = draw(st.booleans())
    c['features'] = draw(st.lists(st.integers(0, 2), max_size=2))
    c['queries'] = draw(queries(c))
    return c


@sub('C30', 'training', fit_cases(), 300, 3000,
     'some events and objects are gone')
def training(case, rec):
    c = case
    full = fill(c, list(range(len(c['rows']))), EventWithScoreData)
    feature(full, c)
    a, at = apply_chain(full, c)
    if c['name'] == 'lpmf' and len(set(c['scores'][i] for i in at)) < 2:
        # an explicit item finder needs both scores
        c = dict(c, chain=[])
        a, at = full, list(range(len(c['rows'])))
    b = fill(c, at, EventWithScoreData)
    got = []
    for data in (a, b):
        r = m.fit(m.any_maker(c['name'], c['C'], c['k'], c['seed'],
                              maxiter=c['maxiter']), data, c)
        got.append((m.all_params(c['name'], r), r.fit_results_, np.array(
            r.predict(gen.id_array(c['queries'] + c['rows'], c['kind'])))))
    # the order of summation might differ
    for x, y in zip(got[0][0], got[1][0]):
        close(x, y, 'parameters learned from filtered events', 1e-5, 1e-5)
    for k in ('n_users', 'n_items', 'n_events', 'n_parameters'):
        if k in got[1][1] or k in got[0][1]:
            eq(got[0][1][k], got[1][1][k], 'fitting result %r' % k)
    for k in ('initial_loss', 'final_loss'):
        close(got[0][1][k], got[1][1][k], 'fitting result %r' % k, 1e-7)
    close(got[0][2], got[1][2],
          'predictions after training on filtered events', 1e-5, 1e-5)
    rec.nt(len(at) < len(c['rows']) and
           any(len(x) < len(y) for x, y in zip(a.eid, full.eid)))
    rec.label(c['name'])


# -- many objects and events ---------------------------------------------------------

@st.composite
def large_cases(draw):
    c = draw(m.large('pmf', sizes=tuple(gen.SIZES), huge=True))
    c['part'] = draw(st.sampled_from([0.02, 0.5, 0.98]))
    c['index'] = draw(st.booleans())
    c['twice'] = draw(st.booleans())
    return c


@sub('C30', 'large', large_cases(), 15, 150,
     'more users or items than 8 bits count')
def large(case, rec):
    c = case
    full, raw, sc = m.large_container(c)
    rng = np.random.RandomState(c['seed'] + 9)
    for o in range(2):
        full.set_feature(o, np.array(full.eid[o])[::-1],
                         np.arange(len(full.eid[o])))
    at = np.arange(len(raw))
    data = full
    for _ in range(1 + c['twice']):
        bits = rng.rand(len(at)) < c['part']
        bits[:2] = True
        pick = rng.permutation(np.nonzero(bits)[0])
        data = data.filter_event(pick if c['index'] else bits)
        at = at[pick] if c['index'] else at[bits]
    new = EventWithScoreData()
    new.set_event(raw[at], np.array(full.score)[at],
                  score_domain=(0, c['levels'] - 1, 1))
    for o in range(2):
        new.set_feature(o, np.array(full.eid[o])[::-1],
                        np.arange(len(full.eid[o])))
    same_container(data, new, 'filtered and new container of many events')
    q = raw[rng.randint(0, len(raw), 2000)]
    eq(data.to_iid_event(q), new.to_iid_event(q), 'encoded events')
    rec.nt(max(c['n']) > 256 and any(
        len(x) < len(y) for x, y in zip(data.eid, full.eid)))
