"""C02: events with unknown ids are encoded by the missing-value marker"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from ..core import sub, must, eq, raises
from .. import gen


@st.composite
def cases(draw):
    c = draw(gen.events())
    cols = gen.cols_of(c)
    objs = gen.objects_of(c)
    pools = []
    for o in range(c['n_otypes']):
        # other types' ids are unknown to this type, unless shared
        cand = sorted(objs[o]) + gen.unknown_ids(c['kind'], objs[o])
        for p in range(c['n_otypes']):
            cand += sorted(objs[p] - objs[o])
        pools.append(cand)
    c['query'] = draw(gen.rows_of(c['kind'], pools, cols, 1, 8))
    m = draw(st.integers(0, 3))
    if m == 1:
        c['missing'] = draw(st.integers(-5, 99))
    elif m == 2:
        c['missing'] = draw(st.lists(
            st.integers(-5, 99), min_size=len(cols), max_size=len(cols)))
    else:
        c['missing'] = None
    c['float_query'] = (c['kind'] in ('small', 'int')
                        and draw(st.integers(0, 3)) == 0)
    if c['float_query']:
        n = len(c['query']) * len(cols)
        c['half'] = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    c['scored'] = draw(st.booleans())
    c['layout'] = draw(gen.layouts)
    c['form'] = draw(st.sampled_from(['list', 'tuple', 'array']))
    c['types'] = [draw(st.sampled_from(gen.TYPES)) for _ in range(2)]
    return c


@sub('C02', 'unknown', cases(), 800, 8000,
     'the query holds both known and unknown ids')
def unknown(case, rec):
    cls = EventWithScoreData if case['scored'] else EventData
    data = cls(n_otypes=case['n_otypes'], event_otypes=case['event_otypes'])
    raw = gen.retype(gen.id_array(case['rows'], case['kind']),
                     case['types'][0])
    if case['scored']:
        data.set_event(raw, np.arange(len(raw)) % 2, score_domain=(0, 1, 1))
    else:
        data.set_event(raw)
    cols = gen.cols_of(case)
    objs = gen.objects_of(case)
    q = gen.id_array(case['query'], case['kind'])
    if case['float_query']:
        # equal numbers are equal ids, others are unknown
        q = q + 0.5 * np.array(case['half'][:q.size]).reshape(q.shape)
        case['query'] = q.tolist()
    q = gen.lay(gen.retype(q, case['types'][1]), case['layout'])
    m = case['missing']
    arg = m
    if isinstance(m, list):
        arg = {'list': list, 'tuple': tuple, 'array': np.array}[
            case['form']](m)
    marks = []
    for c, o in enumerate(cols):
        marks.append(len(objs[o]) if m is None else
                     m if not isinstance(m, list) else m[c])
    want = np.array(
        [[data.to_iid(o, r[c]) if r[c] in objs[o] else marks[c]
          for c, o in enumerate(cols)] for r in case['query']], dtype=int)
    keep = q.copy()
    if m is None and case['form'] != 'array':
        got = data.to_iid_event(q)
    else:
        got = data.to_iid_event(q, missing_values=arg)
    eq(got, want, 'encoding of events with unknown ids')
    eq(q, keep, 'the query is left as it was')
    must(np.asarray(got).dtype.kind in 'iu', 'integer ids')
    for r in range(min(3, len(q))):
        one = data.to_iid_event(q[r], missing_values=arg)
        eq(one, want[r], 'encoding of one event')
    # the tables do not grow by queries
    for o in range(case['n_otypes']):
        must(data.n_objects[o] == len(objs[o]) == len(data.iid[o]),
             'tables are unchanged by queries')
    unk = sum(r[c] not in objs[o] for r in case['query']
              for c, o in enumerate(cols))
    tot = len(case['query']) * len(cols)
    rec.nt(0 < unk < tot)
    rec.label('unknown', unk > 0)
    rec.label('query of floats', case['float_query'])
    rec.label('marker:' + type(m).__name__)
    rec.label('non-identity types', cols != list(range(len(cols))))


@st.composite
def large_cases(draw):
    return {'n': [draw(st.sampled_from([100, 300, 33000, 40000, 70000]))
                  for _ in range(2)],
            'kind': draw(st.sampled_from(['int', 'str'])),
            'unknown': draw(st.sampled_from([0.1, 0.5])),
            'q': draw(st.sampled_from([50, 3000, 40000])),
            'markers': draw(st.sampled_from([None, None, -1, [-5, 10 ** 6]])),
            'seed': draw(st.integers(0, 10 ** 6))}


@sub('C02', 'large', large_cases(), 15, 150,
     'more than 2^15 objects of a type, or than 2^15 events')
def large(case, rec):
    c = case
    rng = np.random.RandomState(c['seed'])
    k = np.arange(max(c['n']))
    iev = np.stack([k % n for n in c['n']], axis=1)

    def external(a):
        a = 7 * a + 10 ** 7
        return a if c['kind'] == 'int' else a.astype('U9')
    data = EventData()
    data.set_event(external(iev)[rng.permutation(len(k))])
    q = np.stack([rng.randint(0, n, c['q']) for n in c['n']], axis=1)
    unk = rng.uniform(size=q.shape) < c['unknown']
    raw = np.where(unk, q + 10 ** 5, q)
    mark = c['n'] if c['markers'] is None else c['markers']
    want = np.where(unk, np.broadcast_to(mark, q.shape), q)
    kw = {} if c['markers'] is None else {'missing_values': c['markers']}
    got = data.to_iid_event(external(raw), **kw)
    eq(got, want, 'internal ids of many events')
    for i in rng.randint(0, len(q), 20):
        eq(data.to_iid_event(external(raw)[i], **kw), want[i],
           'internal ids of one event of many objects')
    eq(data.to_eid_event(q), external(q), 'external ids of many events')
    rec.nt(max(c['n'] + [c['q']]) > 2 ** 15)
    rec.label(c['kind'])


@st.composite
def special_cases(draw):
    c = draw(gen.events(kinds=('small', 'int')))
    cols = gen.cols_of(c)
    objs = gen.objects_of(c)
    c['query'] = draw(gen.rows_of(
        c['kind'], [sorted(x) * 2 + [3001, 4, 5] for x in objs], cols, 1, 8))
    c['missing'] = draw(st.sampled_from([None, -1]))
    c['special'] = draw(gen.specials)
    return c


@sub('C02', 'types', special_cases(), 200, 2000,
     'the query holds both known and unknown ids')
def types(case, rec):
    """ids that are dates, bytes, or large unsigned numbers"""
    c = case
    f = gen.SPECIAL[c['special']]
    data = EventData(n_otypes=c['n_otypes'], event_otypes=c['event_otypes'])
    data.set_event(f(gen.id_array(c['rows'], c['kind'])))
    objs = gen.objects_of(c)
    want = [[int(data.to_iid(o, f(np.array([r[j]]))[0])) if r[j] in objs[o]
             else len(objs[o]) if c['missing'] is None else c['missing']
             for j, o in enumerate(gen.cols_of(c))] for r in c['query']]
    q = f(gen.id_array(c['query'], c['kind']))
    kw = {} if c['missing'] is None else {'missing_values': c['missing']}
    eq(data.to_iid_event(q, **kw), want, 'encoding of events')
    for r, w in list(zip(q, want))[:3]:
        eq(data.to_iid_event(r, **kw), w, 'encoding of one event')
    unk = sum(r[j] not in objs[o] for r in c['query']
              for j, o in enumerate(gen.cols_of(c)))
    rec.nt(0 < unk < q.size)
    rec.label(c['special'])


@st.composite
def bad_shapes(draw):
    c = draw(gen.events(max_rows=4))
    s = len(gen.cols_of(c))
    width = draw(st.integers(0, 6).filter(lambda w: w != s))
    c['shape'] = draw(st.sampled_from(
        [[width], [3, width], [1, width], [2, 2, s], [1, 1, s], [],
         [s, 1, 1]]))
    c['dec'] = draw(st.booleans())
    return c


@sub('C02', 'shape', bad_shapes(), 300, 3000, 'every case')
def shape(case, rec):
    data = EventData(
        n_otypes=case['n_otypes'], event_otypes=case['event_otypes'])
    data.set_event(gen.id_array(case['rows'], case['kind']))
    s = tuple(case['shape'])
    if case['dec']:
        a = np.zeros(s, dtype=int)
        raises(TypeError, lambda: data.to_eid_event(a),
               'decoding an array of shape %s' % (s,))
    else:
        a = np.full(s, case['rows'][0][0])
        raises(TypeError, lambda: data.to_iid_event(a),
               'encoding an array of shape %s' % (s,))
    rec.nt()
    rec.label('ndim %d' % len(s))
