"""C04: object features are aligned with the objects they were given for"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from ..core import sub, must, eq
from .. import gen


@st.composite
def cases(draw):
    c = draw(gen.events(max_rows=15))
    c['otype'] = draw(st.integers(0, c['n_otypes'] - 1))
    objs = sorted(gen.objects_of(c)[c['otype']])
    extra = gen.unknown_ids(c['kind'], set(objs))
    c['ids'] = draw(st.permutations(
        objs + extra[:draw(st.integers(0, 4))]))
    c['form'] = draw(st.sampled_from(
        ['struct', 'vector', 'matrix', 'strings']))
    c['ids_as'] = draw(st.sampled_from(['array', 'list']))
    c['drop'] = draw(st.integers(0, 4)) == 0
    c['scored'] = draw(st.booleans())
    return c


def features(form, n):
    if form == 'struct':
        return np.array(
            [(i * 7 + 1, u'n%d' % i, [i, -i]) for i in range(n)],
            dtype=[('a', int), ('s', 'U6'), ('v', 'i1', 2)])
    if form == 'vector':
        return np.arange(n) * 1.5 + 1
    if form == 'matrix':
        return np.arange(n * 3).reshape(n, 3) + 100
    return np.array([u'name%d' % i for i in range(n)], dtype='U8')


@sub('C04', 'aligned', cases(), 700, 7000,
     'at least two objects, given in another order than that of internal ids '
     'or with surplus ids')
def aligned(case, rec):
    cls = EventWithScoreData if case['scored'] else EventData
    data = cls(n_otypes=case['n_otypes'], event_otypes=case['event_otypes'])
    raw = gen.id_array(case['rows'], case['kind'])
    if case['scored']:
        data.set_event(raw, np.arange(len(raw)) % 2, score_domain=(0, 1, 1))
    else:
        data.set_event(raw)
    t = case['otype']
    objs = gen.objects_of(case)[t]
    ids = list(case['ids'])
    if not ids:
        return
    ft = features(case['form'], len(ids))
    arr = gen.id_array([[e] for e in ids], case['kind'])[:, 0]
    arg = list(arr) if case['ids_as'] == 'list' else arr
    keep = ft.copy()
    data.set_feature(t, arg, ft)
    eq(ft, keep, 'the given features are left as they were')
    ft[...] = ft[0]

    def check(feats):
        f = data.feature[t]
        must(len(f) == len(objs) == data.n_objects[t],
             'one feature per object', len(f), len(objs))
        must(f.dtype == feats.dtype, 'type of features', f.dtype)
        for j, e in enumerate(ids):
            if e in objs:
                eq(f[data.to_iid(t, e)], feats[j],
                   'feature of object %r' % (e,))
    check(keep)
    for o in range(case['n_otypes']):
        must(o == t or data.feature[o] is None,
             'features of other types are not touched')
    eq(data.to_eid_event(data.event), raw, 'events are not touched')
    # setting again replaces the features
    ft2 = features(case['form'], len(ids))[::-1].copy()
    data.set_feature(t, arg, ft2)
    check(ft2.copy())
    rec.nt(len(objs) > 1 and
           [e for e in ids] != sorted(objs))
    rec.label('form:' + case['form'])
    rec.label('surplus ids', len(ids) > len(objs))
    # an object without a feature must not silently get that of another
    if case['drop'] and objs and len(ids) > 1:
        lost = sorted(objs)[-1]
        sel = [j for j, e in enumerate(ids) if e != lost]
        try:
            data.set_feature(t, arr[sel], keep[sel])
        except Exception:
            rec.label('missing object rejected')
            check(ft2)
        else:
            raise AssertionError(
                'features lacking those of an object were accepted')


@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([300, 20000, 33000, 70000])),
            'surplus': draw(st.sampled_from([0, 3, 70000])),
            'kind': draw(st.sampled_from(['int', 'str'])),
            'form': draw(st.sampled_from(['vector', 'struct', 'matrix'])),
            'seed': draw(st.integers(0, 10 ** 6))}


@sub('C04', 'large', large_cases(), 12, 120,
     'more than 2^15 features in any order')
def large(case, rec):
    """many objects, and many features of objects without events"""
    c = case
    rng = np.random.RandomState(c['seed'])
    ids = rng.permutation(c['n'] + c['surplus'])
    used = np.sort(rng.choice(ids, c['n'], replace=False))

    def external(a):
        a = 3 * a + 10 ** 7
        return a if c['kind'] == 'int' else a.astype('U9')
    data = EventData()
    data.set_event(external(np.stack([rng.permutation(used), used], axis=1)))
    n = len(ids)
    if c['form'] == 'struct':
        ft = np.zeros(n, dtype=[('a', int), ('b', 'f4')])
        ft['a'] = ids * 2
        ft['b'] = ids % 97
    elif c['form'] == 'matrix':
        ft = np.stack([ids * 2, -ids], axis=1)
    else:
        ft = ids * 2.0
    at = np.empty(n, dtype=int)
    at[ids] = np.arange(n)
    want = ft[at[used]]
    for t in range(2):
        data.set_feature(t, external(ids), ft)
        eq(data.feature[t], want, 'features of many objects')
    keep = np.sort(rng.choice(len(used), 50, replace=False))
    small = data.filter_event(keep)
    eq(small.feature[1], want[keep], 'features of the objects that are left')
    rec.nt(n > 2 ** 15)
    rec.label(c['kind'])
