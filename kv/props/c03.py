"""C03: filtering keeps exactly the selected events and what they refer to"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from ..core import sub, must, eq, close
from .. import gen

EF = np.dtype([('t', int), ('w', float)])
FT = np.dtype([('a', int), ('s', 'U8')])


class Model(object):
    """plain record of what a container should hold"""

    def __init__(self, rows, scores, domain, efeat, feats):
        self.rows, self.scores, self.domain = rows, scores, domain
        self.efeat, self.feats = efeat, feats

    def copy(self):
        return Model(
            list(self.rows), None if self.scores is None else
            list(self.scores), self.domain,
            None if self.efeat is None else list(self.efeat),
            [None if f is None else dict(f) for f in self.feats])

    def take(self, idx):
        m = self.copy()
        m.rows = [self.rows[i] for i in idx]
        if self.scores is not None:
            m.scores = [self.scores[i] for i in idx]
        if self.efeat is not None:
            m.efeat = [self.efeat[i] for i in idx]
        return m


def compare(data, m, case, what):
    cols = gen.cols_of(case)
    objs = gen.objects_of(case, m.rows)
    must(data.n_events == len(m.rows), what + ': n_events',
         data.n_events, len(m.rows))
    ev = np.asarray(data.event)
    must(ev.shape == (len(m.rows), len(cols)), what + ': shape of events',
         ev.shape)
    for o in range(case['n_otypes']):
        n = len(objs[o])
        must(data.n_objects[o] == n, what + ': number of objects',
             o, data.n_objects[o], n)
        must(set(np.asarray(data.eid[o]).tolist()) == objs[o] and
             len(data.eid[o]) == n,
             what + ': external ids', data.eid[o], objs[o])
        must(len(data.iid[o]) == n, what + ': size of an id table')
        for e in objs[o]:
            must(data.to_eid(o, data.to_iid(o, e)) == e,
                 what + ': ids correspond', e)
    for r in range(len(m.rows)):
        for c, o in enumerate(cols):
            i = ev[r, c]
            must(0 <= i < data.n_objects[o] and
                 data.to_eid(o, i) == m.rows[r][c],
                 what + ': event refers to its object', r, c)
    if m.rows:
        eq(data.to_eid_event(data.event),
           gen.id_array(m.rows, case['kind']), what + ': events')
    # event features
    if m.efeat is None:
        must(data.event_feature is None, what + ': no event features')
    else:
        must(len(data.event_feature) == len(m.rows),
             what + ': number of event features')
        for r in range(len(m.rows)):
            f = data.event_feature[r]
            must((int(f['t']), float(f['w'])) == tuple(m.efeat[r]),
                 what + ': event feature', r, f, m.efeat[r])
    # object features
    for o in range(case['n_otypes']):
        if m.feats[o] is None:
            must(data.feature[o] is None, what + ': no object features')
        else:
            must(len(data.feature[o]) == data.n_objects[o],
                 what + ': number of object features')
            for e in objs[o]:
                f = data.feature[o][data.to_iid(o, e)]
                must((int(f['a']), str(f['s'])) == m.feats[o][e],
                     what + ': object feature', e, f, m.feats[o][e])
    # scores
    if m.scores is not None:
        eq(data.score, m.scores, what + ': scores')
        close(data.score_domain, m.domain, what + ': score domain')
        must(data.n_score_levels ==
             int(round((m.domain[1] - m.domain[0]) / m.domain[2])) + 1,
             what + ': number of score levels', data.n_score_levels)


MASKS = ['bool', 'bool', 'bool', 'index', 'shuffled', 'repeated', 'all',
         'none', 'by_object']


@st.composite
def op(draw):
    k = draw(st.sampled_from(
        ['filter', 'filter', 'filter', 'feature', 'binarize', 'reset',
         'switch']))
    o = {'op': k, 'seed': draw(st.integers(0, 5))}
    if k == 'filter':
        o['mask'] = draw(st.sampled_from(MASKS))
        o['bits'] = draw(st.lists(st.booleans(), min_size=1, max_size=20))
        o['keep'] = draw(st.booleans())
        o['form'] = draw(st.sampled_from(
            [None, None, None, 'list', 'narrow', 'strided', 'locked',
             'from end']))
    elif k == 'feature':
        o['otype'] = draw(st.integers(0, 2))
        o['perm'] = draw(st.integers(0, 10 ** 6))
        o['extra'] = draw(st.integers(0, 3))
    elif k == 'binarize':
        o['thresh'] = draw(st.one_of(st.none(), st.integers(0, 6)))
    elif k == 'reset':
        o['bits'] = draw(st.lists(st.booleans(), min_size=1, max_size=20))
        o['efeat'] = draw(st.booleans())
    return o


@st.composite
def cases(draw):
    c = draw(gen.events(max_rows=18))
    c['scored'] = draw(st.booleans())
    c['efeat'] = draw(st.booleans())
    c['ops'] = draw(st.lists(op(), min_size=1, max_size=7))
    return c


def mask_of(o, n, m, case):
    """(argument for filter_event, selected indexes)"""
    bits = [o['bits'][i % len(o['bits'])] for i in range(n)]
    k = o['mask']
    if k == 'all':
        bits = [True] * n
    elif k == 'none':
        bits = [False] * n
    elif k == 'by_object' and m.rows:
        e = m.rows[o['seed'] % len(m.rows)][0]
        bits = [(r[0] == e) == o['bits'][0] for r in m.rows]
    elif k in ('index', 'shuffled', 'repeated'):
        # splitters of the package hand over sorted indexes
        idx = [i for i in range(n) if bits[i]]
        if k == 'repeated':
            idx = idx + idx[::2]
        if k != 'index':
            rng = np.random.RandomState(o['seed'])
            idx = [idx[i] for i in rng.permutation(len(idx))]
        return np.array(idx, dtype=int), idx
    return np.array(bits, dtype=bool), [i for i in range(n) if bits[i]]


def formed(x, n, form):
    """the same selection in another form"""
    if form == 'list' and len(x):
        return x.tolist()
    if form == 'narrow' and x.dtype != bool and n <= 128:
        return x.astype('i1' if n % 2 else 'u1')
    if form == 'strided':
        y = np.zeros((len(x), 3), dtype=x.dtype)
        y[:, 1] = x
        return y[:, 1]
    if form == 'locked':
        x.setflags(write=False)
    if form == 'from end' and x.dtype != bool:
        return np.where(np.arange(len(x)) % 2, x - n, x)
    return x


def put(data, m, case, scored):
    raw = gen.id_array(m.rows, case['kind'], len(gen.cols_of(case)))
    ef = None
    if m.efeat is not None:
        ef = np.array([tuple(x) for x in m.efeat], dtype=EF)
    if scored:
        sc = np.array(m.scores, dtype=int)
        data.set_event(raw, sc, score_domain=m.domain, event_feature=ef)
        sc[...] = -99
    else:
        data.set_event(raw, event_feature=ef)
    if ef is not None:
        ef['t'] = -99
    raw[...] = raw[:1, :1] if len(raw) else raw


@sub('C03', 'history', cases(), 700, 8000,
     'a filter drops some events and keeps others')
def history(case, rec):
    cls = EventWithScoreData if case['scored'] else EventData
    no = case['n_otypes']
    data = cls(n_otypes=no, event_otypes=case['event_otypes'])
    must(data.filter_event(np.zeros(0, dtype=bool)) is None,
         'filtering an empty container gives nothing')
    n = len(case['rows'])
    m = Model(case['rows'],
              [i % 5 + 1 for i in range(n)] if case['scored'] else None,
              (1, 5, 1),
              [[i * 3, i / 2.0] for i in range(n)] if case['efeat'] else None,
              [None] * no)
    put(data, m, case, case['scored'])
    compare(data, m, case, 'initial')
    live = [(data, m)]
    cur = 0
    for step, o in enumerate(case['ops']):
        data, m = live[cur]
        n = len(m.rows)
        if o['op'] == 'filter':
            arg, idx = mask_of(o, n, m, case)
            arg = formed(arg, n, o['form'])
            keep = arg.copy()
            new = data.filter_event(arg)
            eq(arg, keep, 'the condition is left as it was')
            must(new is not data, 'a filter returns a copy')
            must(type(new) is type(data), 'class of the copy')
            if isinstance(arg, list):
                del arg[:]
            elif arg.flags.writeable:
                arg[...] = 0
            nm = m.take(idx)
            live.append((new, nm))
            rec.nt(0 < len(idx) < n)
            rec.label('filter:' + o['mask'])
            rec.label('selection as ' + str(o['form'] or 'array'))
            rec.label('objects vanish', gen.objects_of(case, nm.rows) !=
                      gen.objects_of(case, m.rows))
            rec.label('filter with object features',
                      any(f is not None for f in m.feats))
            if not o['keep']:
                cur = len(live) - 1
        elif o['op'] == 'feature':
            t = o['otype'] % no
            objs = sorted(gen.objects_of(case, m.rows)[t])
            extra = gen.unknown_ids(case['kind'], set(objs))[:o['extra']]
            ids = objs + extra
            if ids:
                k = o['perm'] % len(ids)
                ids = ids[k:] + ids[:k]
                if o['perm'] % 2:
                    ids = ids[::-1]
                vals = {e: (o['perm'] % 97 + j, u'f%d' % j)
                        for j, e in enumerate(ids)}
                arr = gen.id_array([[e] for e in ids], case['kind'])[:, 0]
                ft = np.array([vals[e] for e in ids], dtype=FT)
                data.set_feature(t, arr, ft)
                ft['a'] = -99
                m.feats[t] = vals
                rec.label('set_feature')
        elif o['op'] == 'binarize' and case['scored']:
            th = o['thresh']
            data.binarize_score(th)
            if th is None:
                th = (m.domain[0] + m.domain[1]) / 2.0
            m.scores = [0 if s <= th else 1 for s in m.scores]
            m.domain = (0, 1, 1)
            rec.label('binarize')
        elif o['op'] == 'reset' and n:
            rows = [r for i, r in enumerate(m.rows)
                    if o['bits'][i % len(o['bits'])]] or m.rows[:1]
            rows = rows[::-1]
            nm = Model(rows,
                       [i % 2 for i in range(len(rows))]
                       if case['scored'] else None, (0, 1, 1),
                       [[i, i / 4.0] for i in range(len(rows))]
                       if o['efeat'] else None, [None] * no)
            put(data, nm, case, case['scored'])
            live[cur] = (data, nm)
            rec.label('set_event again')
        elif o['op'] == 'switch':
            cur = o['seed'] % len(live)
        # every container that is alive holds what it should
        for i, (d, mm) in enumerate(live):
            compare(d, mm, case, 'after step %d (%s), container %d' % (
                step, o['op'], i))
    rec.label('chain of filters',
              sum(o['op'] == 'filter' for o in case['ops']) > 1)


# -- many objects: cases are seeds and sizes -------------------------------------

@st.composite
def large_cases(draw):
    c = draw(gen.large())
    c['chain'] = draw(st.lists(st.tuples(
        st.sampled_from(['mask', 'index', 'first', 'one object']),
        st.sampled_from([0.9, 0.5, 0.05, 0.001])).map(list),
        min_size=1, max_size=3))
    c['scored'] = draw(st.booleans())
    return c


@sub('C03', 'large', large_cases(), 40, 400,
     'more objects of a type than 15 bits count')
def large(case, rec):
    c = case
    ids, rows = gen.large_ids(c), gen.large_rows(c)
    width = max(x.dtype.itemsize for x in ids) // 4
    raw = np.stack([ids[o][rows[:, o]] for o in range(2)], axis=1).astype(
        'U%d' % width if c['kind'] == 'str' else ids[0].dtype)
    rng = np.random.RandomState(c['seed'] + 7)
    n = len(raw)
    sc = rng.randint(1, 6, n)
    when = rng.randint(0, 2 ** 40, n)
    feat = [rng.randint(0, 10 ** 6, m) for m in c['n']]
    data = (EventWithScoreData if c['scored'] else EventData)()
    if c['scored']:
        data.set_event(raw, sc, score_domain=(1, 5, 1), event_feature=when)
    else:
        data.set_event(raw, event_feature=when)
    for o in range(2):
        p = rng.permutation(c['n'][o])
        data.set_feature(o, ids[o][p], feat[o][p])
    live = [(data, np.arange(n))]
    for kind, rate in c['chain']:
        data, at = live[-1]
        pick = rng.rand(len(at)) < rate
        if kind == 'first':
            pick = np.arange(len(at)) < rate * len(at)
        elif kind == 'one object':
            pick = rows[at, 0] == rows[at[len(at) // 2], 0]
        if not pick.any():
            pick[-1] = True
        arg = np.nonzero(pick)[0] if kind == 'index' else pick
        live.append((data.filter_event(arg), at[pick]))
    for data, at in live:
        must(data.n_events == len(at), 'number of events')
        eq(data.to_eid_event(data.event), raw[at], 'events')
        eq(data.event_feature, when[at], 'event features')
        if c['scored']:
            eq(data.score, sc[at], 'scores')
            eq(data.score_domain, [1, 5, 1], 'score domain')
        for o in range(2):
            have = np.unique(rows[at, o])
            must(data.n_objects[o] == len(have) == len(data.eid[o]) ==
                 len(data.iid[o]), 'number of objects', data.n_objects[o])
            order = np.argsort(data.eid[o])
            eq(np.asarray(data.eid[o])[order], ids[o][have], 'external ids')
            eq(np.asarray(data.feature[o])[order], feat[o][have],
               'features of objects')
            eq([data.to_iid(o, e) for e in data.eid[o].tolist()],
               np.arange(len(have)), 'internal ids of objects')
    rec.nt(max(c['n']) > 2 ** 15)
    rec.label('more than 8 bits', max(c['n']) > 2 ** 8)
