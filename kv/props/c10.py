"""C10: predictions are the model formula, and unknown objects are neutral"""
from hypothesis import strategies as st
import numpy as np
from ..core import sub, must, eq, close
from .. import gen
from .. import models as m


@st.composite
def queries(draw, c, max_rows=7, min_rows=1):
    """rows of external ids: known ones, and unknown ones"""
    cols = gen.cols_of(c)
    known = gen.objects_of(c)
    cells = []
    for o in cols:
        u = gen.unknown_ids(c['kind'], known[o])
        k = sorted(known[o])
        cells.append(st.one_of(*(
            ([st.sampled_from(k)] * 3 if k else []) + [st.sampled_from(u)])))
    return draw(st.lists(st.tuples(*cells).map(list), min_size=min_rows,
                         max_size=max_rows))


@st.composite
def cases(draw, name):
    c = draw(m.for_model(name))
    c['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
    c['k'] = draw(m.factors(4))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['trained'] = draw(st.integers(0, 3)) == 0
    c['scale'] = draw(st.sampled_from([0.3, 1.0, 3.0, 20.0]))
    c['plain'] = draw(st.booleans())
    c['queries'] = draw(queries(c))
    c['order'] = draw(st.permutations(list(range(len(c['queries'])))))
    c['as_list'] = draw(st.booleans())
    c['reps'] = draw(st.sampled_from([2, 2, 3, 70, 400]))
    c['dtype'] = draw(st.sampled_from([None, None, 'int32', 'float', 'S']))
    return c


def query_array(c, rows):
    q = gen.id_array(rows, c['kind'], len(gen.cols_of(c)))
    if c['kind'] in ('small', 'int') and c['dtype'] in ('int32', 'float'):
        if np.all(np.abs(q) < 2 ** 30):
            q = q.astype(c['dtype'])
    if c['kind'] == 'str' and c['dtype'] == 'S':
        q = q.astype('U40')
    return gen.lay(q, c.get('layout'))


def snapshot(rec):
    return [np.array(getattr(rec, a)) for a in
            ('mu_', 'bu_', 'bi_', 'p_', 'q_')]


def run(name, case, rec):
    c = case
    data = m.container(c, plain=(name == 'ilpmf' and c['plain']))
    rng = np.random.RandomState(c['seed'])
    if c['trained']:
        kw = {'maxiter': 4}
    else:
        kw = {'method': m.Probe(lambda f, g, x0, o: m.result(
            rng.normal(0.0, c['scale'], len(x0))))}
    model = m.fit(m.worn(m.quiet_maker(
        name, c['C'], c['k'], c['seed'], **kw), c), data, c)
    before = snapshot(model)
    mu, bu, bi, p, q = m.params_of(model)
    cols, (iu, ii) = gen.cols_of(c), m.index_of(c)
    known = gen.objects_of(c)

    def one(row):
        u, i = row[iu], row[ii]
        ku, ki = u in known[cols[iu]], i in known[cols[ii]]
        x = mu
        if ku:
            nu = int(data.to_iid(cols[iu], u))
            x += bu[nu]
        if ki:
            ni = int(data.to_iid(cols[ii], i))
            x += bi[ni]
        if ku and ki:
            x += sum(float(a) * float(b) for a, b in zip(p[nu], q[ni]))
        return x if name == 'pmf' else m.sigmoid(x), ku, ki

    rows = c['queries']
    want = [one(r)[0] for r in rows]
    arr = query_array(c, rows)
    keep = arr.copy()
    tol = dict(rtol=1e-8, atol=1e-9 * (1 + c['scale'] ** 2))
    if name != 'pmf':
        tol = dict(rtol=1e-8, atol=1e-11)
    got = model.predict(arr)
    if len(rows) == 1:
        must(np.size(got) == 1, 'one number for one event', got)
        got = np.reshape(got, (1,))
    must(np.shape(got) == (len(rows),), 'shape of predictions',
         np.shape(got), len(rows))
    close(got, want, 'predictions of events', **tol)
    eq(arr, keep, 'events given to predict are not changed')

    # alone, and in another order
    for r, a, w in zip(rows, arr, want):
        x = r if c['as_list'] else a
        s = model.predict(x)
        must(np.ndim(s) == 0, 'one number for one event', s)
        close(float(s), w, 'prediction of a single event', **tol)
    s = model.predict(arr[c['order']])
    close(np.reshape(s, (-1,)), [want[i] for i in c['order']],
          'predictions in another order', **tol)
    close(np.reshape(model.predict(np.tile(arr, (c['reps'], 1))), (-1,)),
          want * c['reps'],
          'predictions of repeated events', **tol)
    if c['as_list']:
        close(np.reshape(model.predict([list(r) for r in rows]), (-1,)),
              want, 'predictions of a list', **tol)
    eq(np.reshape(model.predict(arr), (-1,)), got,
       'predictions are repeatable')
    for a, b in zip(before, snapshot(model)):
        eq(b, a, 'predicting does not change the recommender')

    st_ = [one(r)[1:] for r in rows]
    part = any(a != b for a, b in st_)
    full = any(a and b for a, b in st_)
    rec.nt(len(rows) > 1 and part and full)
    rec.label('unknown user or item', part)
    rec.label('unknown both', any(not a and not b for a, b in st_))
    rec.label('special columns', c['event_index'] is not None or
              c['event_otypes'] is not None)
    rec.label('reversed columns', c['event_index'] is not None and
              c['event_index'][0] > c['event_index'][1])
    rec.label('ids:' + c['kind'])
    rec.label('trained', c['trained'])


RULE = 'several events, some known and some with one unknown object'


@sub('C10', 'pmf', cases('pmf'), 600, 6000, RULE)
def pmf(case, rec):
    run('pmf', case, rec)


@sub('C10', 'logistic', cases('lpmf'), 600, 6000, RULE)
def logistic(case, rec):
    run('lpmf', case, rec)


@sub('C10', 'implicit', cases('ilpmf'), 600, 6000, RULE)
def implicit(case, rec):
    run('ilpmf', case, rec)


@st.composite
def large_cases(draw, huge=False):
    name = draw(st.sampled_from(
        ['pmf', 'lpmf'] if huge else ['pmf', 'lpmf', 'ilpmf']))
    c = draw(m.large(name))
    if huge:
        c['n'][draw(st.integers(0, 1))] = draw(st.integers(32769, 33000))
    c['name'] = name
    c['unknown'] = draw(st.sampled_from([0.0, 0.01, 0.3]))
    c['queries'] = draw(st.sampled_from([1, 200, 1024, 5000, 40000]))
    return c


@sub('C10', 'large', large_cases(), 40, 400,
     'more users or items than 8 bits count, and many queries')
def large(case, rec):
    run_large(case, rec)


@sub('C10', 'huge', large_cases(True), 2, 20,
     'more users or items than 15 bits count')
def huge(case, rec):
    run_large(case, rec)


def run_large(case, rec):
    c, name = case, case['name']
    data, raw, sc = m.large_container(c)
    rng = np.random.RandomState(c['seed'])
    model = m.fit(m.quiet_maker(
        name, c['C'], c['k'], 0, method=m.Probe(
            lambda f, g, x0, o: m.result(rng.normal(0, 1, len(x0))))),
        data, c)
    mu, bu, bi, p, q = m.params_of(model)
    # unknown ids, and the row of the parameters for them: zeros
    bu, bi = np.r_[bu, 0.0], np.r_[bi, 0.0]
    p, q = [np.vstack([a, np.zeros((1, c['k']))]) for a in (p, q)]
    n = [len(e) for e in data.eid]
    iid = [rng.randint(0, k, c['queries']) for k in n]
    iid = [np.where(rng.rand(c['queries']) < c['unknown'], n[o], iid[o])
           for o in range(2)]
    un = 'no such id' if c['kind'] == 'str' else -10 ** 6
    ext = [np.array(list(data.eid[o]) + [un])[iid[o]] for o in range(2)]
    x = m.linear_all((mu, bu, bi, p, q), iid[0], iid[1])
    want = x if name == 'pmf' else 1 / (1 + np.exp(-np.clip(x, -34.5387763949,
                                                            34.5387763949)))
    arr = np.stack(ext, axis=1)
    got = np.reshape(model.predict(arr), (-1,))
    must(len(got) == len(want), 'number of predictions', len(got))
    close(got, want, 'predictions of many events', rtol=1e-8, atol=1e-9)
    for r in (0, len(arr) // 2, -1):
        close(float(model.predict(arr[r])), want[r], 'one of many events',
              rtol=1e-8, atol=1e-9)
    rec.nt(max(c['n']) > 256 and c['queries'] > 1)
    rec.label(name)
    rec.label('unknown objects', any((iid[o] == n[o]).any()
                                     for o in range(2)))
