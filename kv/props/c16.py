"""C16: implicit feedback is the 0/1 matrix of users and items"""
from hypothesis import strategies as st
import numpy as np
from scipy import sparse
from kamrecsys.data import EventData
from kamrecsys.item_finder import BaseImplicitItemFinder
from ..core import sub, must, eq, close, raises
from .. import gen
from .. import models as m


class Finder(BaseImplicitItemFinder):
    """looks at the matrices that a fit method gets"""

    def __init__(self, types, dense=True):
        super(Finder, self).__init__()
        self.dense = dense
        self.types = types
        self.got = {}

    def fit(self, data, event_index=(0, 1)):
        super(Finder, self).fit(data, event_index)
        for t in self.types:
            self.got[t] = self.get_event_array(t)
        self.got['default'] = self.get_event_array()
        for t in ('coo', 'dense', '', 'CSR', 'bsr', None, 0, 'csrx'):
            raises(TypeError, lambda: self.get_event_array(t),
                   'representation %r' % (t,))
        if not self.dense:
            return
        again = self.get_event_array('array')
        eq(again[0], self.got['array'][0], 'the matrix once more')

    def raw_predict(self, ev):
        return np.zeros(len(ev))


@st.composite
def matrix_cases(draw):
    c = draw(m.datasets(max_rows=25))
    c['plain'] = draw(st.booleans())
    rep = draw(st.lists(st.integers(0, len(c['rows']) - 1), max_size=10))
    c['rows'] = c['rows'] + [c['rows'][i] for i in rep]
    c['scores'] = c['scores'] + [c['scores'][i] for i in rep]
    c['types'] = draw(st.permutations(['csr', 'csc', 'lil', 'array']))
    return c


@sub('C16', 'matrix', matrix_cases(), 700, 7000,
     'some repeated events and more than one user and item')
def matrix(case, rec):
    c = case
    data = m.container(c, plain=c['plain'])
    f = Finder(list(c['types']))
    m.fit(f, data, c)
    pairs = m.pairs_of(c, data)
    nu, ni = m.sizes_of(c, data)
    want = [[1 if (u, i) in set(pairs) else 0 for i in range(ni)]
            for u in range(nu)]
    for t, (ev, n) in f.got.items():
        must(tuple(int(v) for v in n) == (nu, ni),
             'numbers of users and items', n, (nu, ni))
        if t == 'array':
            must(isinstance(ev, np.ndarray) and not sparse.issparse(ev),
                 'type of a dense matrix', type(ev))
            dense = ev
        else:
            must(sparse.issparse(ev), 'a sparse matrix', type(ev))
            must(ev.format == ('csr' if t == 'default' else t),
                 'format of a sparse matrix', ev.format, t)
            dense = ev.toarray()
            must(ev.nnz == len(set(pairs)) and
                 ev.count_nonzero() == len(set(pairs)),
                 'number of nonzero elements', ev.nnz)
        eq(dense, want, 'matrix of type ' + t)
    rec.nt(len(set(pairs)) < len(pairs) and nu > 1 and ni > 1)
    rec.label('special columns', c['event_index'] is not None or
              c['event_otypes'] is not None)
    rec.label('empty row or column',
              any(sum(r) == 0 for r in want) or
              any(sum(r) == 0 for r in zip(*want)))
    rec.label('not square', nu != ni)


@st.composite
def train_cases(draw):
    c = draw(m.datasets(max_rows=14))
    n = len(c['rows'])
    rep = draw(st.lists(st.integers(0, n - 1), max_size=8))
    c['order'] = draw(st.permutations(list(range(n)) + rep))
    c['plain'] = [draw(st.booleans()), draw(st.booleans())]
    c['k'] = draw(st.integers(1, 3))
    c['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['maxiter'] = draw(st.sampled_from([0, 1, 2, 3]))
    return c


@sub('C16', 'training', train_cases(), 400, 4000,
     'events are repeated or reordered, more than one user and item')
def training(case, rec):
    c = case
    d = dict(c, rows=[c['rows'][i] for i in c['order']],
             scores=[c['scores'][i] for i in c['order']])
    data = [m.container(c, c['plain'][0]), m.container(d, c['plain'][1])]
    got = []
    for x in data:
        r = m.fit(m.quiet_maker('ilpmf', c['C'], c['k'], c['seed'],
                                maxiter=c['maxiter'], tol=1e-12), x, c)
        got.append((m.all_params('ilpmf', r), dict(r.fit_results_),
                    r.predict(gen.id_array(c['rows'], c['kind']))))
    # the order of summation may depend on the order of events
    for x, y in zip(got[0][0], got[1][0]):
        close(y, x, 'parameters learned from the same matrix', 1e-5, 1e-5)
    close(got[1][2], got[0][2], 'predictions', 1e-5, 1e-5)
    for k in ('n_users', 'n_items', 'n_parameters', 'optimizer_method'):
        eq(got[1][1][k], got[0][1][k], 'fitting result %r' % k)
    for k in ('initial_loss', 'final_loss'):
        close(got[1][1][k], got[0][1][k], 'fitting result %r' % k, 1e-7)
    nu, ni = m.sizes_of(c, data[0])
    rec.nt(list(c['order']) != list(range(len(c['rows']))) and nu > 1 and
           ni > 1)
    rec.label('repeated', len(c['order']) > len(c['rows']))
    rec.label('scores do not matter', c['plain'][0] != c['plain'][1])


@sub('C16', 'large', m.large('ilpmf', huge=False), 40, 400,
     'more users or items than 8 bits count')
def large(case, rec):
    c = case
    data, raw, sc = m.large_container(c)
    f = Finder(['csr', 'csc', 'lil', 'array'])
    f.fit(data)
    want = np.zeros(c['n'])
    want[data.event[:, 0], data.event[:, 1]] = 1
    for t, (ev, n) in f.got.items():
        eq(n, c['n'], 'numbers of many users and items')
        eq(ev if t == 'array' else ev.toarray(), want,
           'large matrix of type ' + t)
    rec.nt(max(c['n']) > 256)


@st.composite
def vast_cases(draw):
    return {'n': [draw(st.sampled_from([40000, 70000])),
                  draw(st.sampled_from([3, 300, 33000, 70000]))],
            'swap': draw(st.booleans()),
            'more': draw(st.sampled_from([0, 10, 5000])),
            'seed': draw(st.integers(0, 10 ** 6))}


@sub('C16', 'vast', vast_cases(), 12, 120,
     'more pairs of users and items than 31 bits count')
def vast(case, rec):
    """sparse matrices that are too large to be written down"""
    c = case
    n = c['n'][::-1] if c['swap'] else c['n']
    rng = np.random.RandomState(c['seed'])
    k = np.arange(max(n))
    ev = np.stack([k % n[0], k[::-1] % n[1]], axis=1)
    ev = np.concatenate([ev, ev[rng.randint(0, len(ev), c['more'])],
                         np.stack([rng.randint(0, i, c['more'])
                                   for i in n], axis=1)])
    ev = ev[rng.permutation(len(ev))]
    data = EventData()
    data.set_event(ev * 3 + 7)
    f = Finder(['csr', 'csc'], dense=False)
    f.fit(data)
    want = np.unique(ev[:, 0].astype(np.int64) * n[1] + ev[:, 1])
    for t, (a, size) in f.got.items():
        eq(size, n, 'numbers of many users and items')
        must(tuple(a.shape) == tuple(n), 'shape of a vast matrix', a.shape)
        a = a.tocoo()
        must(bool(np.all(a.data == 1)), 'elements of a vast matrix')
        got = np.sort(a.row.astype(np.int64) * n[1] + a.col)
        eq(got, want, 'users and items of a vast matrix of type ' + t)
    rec.nt(n[0] * n[1] > 2 ** 31)
