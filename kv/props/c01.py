"""C01: external and internal ids correspond one to one"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from ..core import sub, must, eq, raises
from .. import gen


def check_tables(data, case, rows):
    cols = gen.cols_of(case)
    objs = gen.objects_of(case, rows)
    for o in range(case['n_otypes']):
        n = len(objs[o])
        must(data.n_objects[o] == n, 'number of objects', data.n_objects, o, n)
        must(len(data.eid[o]) == n, 'size of the external id table')
        must(set(np.asarray(data.eid[o]).tolist()) == objs[o],
             'external ids of a type', data.eid[o], objs[o])
        must(len(data.iid[o]) == n, 'size of the internal id table')
        seen = set()
        for e in objs[o]:
            i = data.to_iid(o, e)
            must(0 <= i < n, 'internal id in range', i, n)
            seen.add(int(i))
            must(data.to_eid(o, i) == e, 'to_eid(to_iid(e)) == e', e)
        must(seen == set(range(n)), 'internal ids are 0..n-1', seen)
        for i in range(n):
            must(data.to_iid(o, data.to_eid(o, i)) == i,
                 'to_iid(to_eid(i)) == i', i)
        for e in gen.unknown_ids(case['kind'], objs[o]):
            raises(ValueError, lambda: data.to_iid(o, e),
                   'to_iid of an unknown id %r' % (e,))
        for i in (n, n + 1, n + 7, -1, -n, -n - 1):
            if 0 <= i < n:
                continue
            raises(ValueError, lambda: data.to_eid(o, i),
                   'to_eid of an id out of range %r of %r' % (i, n))


def check_events(data, case, rows):
    cols = gen.cols_of(case)
    raw = gen.retype(gen.id_array(rows, case['kind'], len(cols)),
                     case.get('idtype'))
    must(data.n_events == len(rows), 'n_events')
    must(data.s_event == len(cols), 's_event')
    ev = np.asarray(data.event)
    must(ev.shape == raw.shape, 'shape of events', ev.shape)
    must(ev.dtype.kind in 'iu', 'events are integers', ev.dtype)
    for c, o in enumerate(cols):
        must(ev.shape[0] == 0 or (
            ev[:, c].min() >= 0 and ev[:, c].max() < data.n_objects[o]),
            'internal ids of events are in range')
        for r in range(len(rows)):
            must(data.to_eid(o, ev[r, c]) == rows[r][c],
                 'stored event refers to its object', r, c)
    dec = data.to_eid_event(data.event)
    eq(dec, raw, 'to_eid_event of all events')
    must(np.asarray(dec).dtype.kind == raw.dtype.kind,
         'type of decoded ids', np.asarray(dec).dtype)
    eq(data.to_iid_event(raw), ev, 'to_iid_event of all events')
    for r in list(range(len(rows)))[:4]:
        eq(data.to_eid_event(data.event[r]), raw[r], 'one decoded event')
        eq(data.to_iid_event(raw[r]), ev[r], 'one encoded event')
    sub_ = list(range(len(rows)))[::-2]
    if sub_:
        eq(data.to_eid_event(ev[sub_]), raw[sub_], 'subset of events')


@st.composite
def cases(draw):
    c = draw(gen.events())
    c['scored'] = draw(st.booleans())
    c['order'] = draw(gen.layouts)
    c['idtype'] = draw(st.sampled_from(gen.TYPES))
    # the same container may be filled again with other events
    if draw(st.integers(0, 2)) == 0:
        cols = gen.cols_of(c)
        pools = [draw(gen.id_pool(c['kind'])) for _ in range(c['n_otypes'])]
        c['rows2'] = draw(gen.rows_of(c['kind'], pools, cols))
    else:
        c['rows2'] = None
    return c


@sub('C01', 'bijection', cases(), 600, 6000,
     'at least two objects of one type and two events')
def bijection(case, rec):
    cls = EventWithScoreData if case['scored'] else EventData
    eo = case['event_otypes']
    if eo is not None:
        eo = {'C': np.array, 'F': list}.get(case['order'], tuple)(eo)
    data = cls(n_otypes=case['n_otypes'], event_otypes=eo)
    for rows in [case['rows'], case['rows2']]:
        if rows is None:
            continue
        raw = gen.lay(gen.retype(gen.id_array(rows, case['kind']),
                                case.get('idtype')), case['order'])
        keep = raw.copy()
        if case['scored']:
            data.set_event(raw, np.arange(len(rows)) % 5 + 1,
                           score_domain=(1, 5, 1))
        else:
            data.set_event(raw)
        eq(raw, keep, 'the given events are left as they were')
        check_tables(data, case, rows)
        check_events(data, case, rows)
        # the container owns its tables
        if raw.flags.writeable:
            raw[...] = raw[0, 0]
        if isinstance(eo, np.ndarray):
            eo[...] = eo[::-1] if rows is case['rows'] else 0
            eq(data.event_otypes, case['event_otypes'], 'types of columns')
            check_tables(data, case, rows)
        check_events(data, case, rows)
    cols = gen.cols_of(case)
    rec.nt(len(case['rows']) > 1 and
           max(len(x) for x in gen.objects_of(case)) > 1)
    rec.label('ids:' + case['kind'])
    rec.label('array:' + str(case.get('idtype')))
    rec.label('shared object type', len(set(cols)) < len(cols))
    rec.label('unused object type', len(set(cols)) < case['n_otypes'])
    rec.label('filled twice', case['rows2'] is not None)
    rec.label('one column', len(cols) == 1)


@st.composite
def special_cases(draw):
    c = draw(gen.events(kinds=('small', 'int')))
    c['special'] = draw(gen.specials)
    c['layout'] = draw(gen.layouts)
    return c


@sub('C01', 'types', special_cases(), 250, 2500,
     'at least two objects of one type and two events')
def types(case, rec):
    """ids that are dates, bytes, or large unsigned numbers"""
    c = case
    f = gen.SPECIAL[c['special']]
    raw = gen.id_array(c['rows'], c['kind'])
    sp = gen.lay(f(raw), c['layout'])
    data = EventData(n_otypes=c['n_otypes'], event_otypes=c['event_otypes'])
    data.set_event(sp)
    cols = gen.cols_of(c)
    objs = [sorted(x) for x in gen.objects_of(c)]
    for o in range(c['n_otypes']):
        must(data.n_objects[o] == len(objs[o]), 'number of objects')
        seen = set()
        for e in objs[o]:
            e = f(np.array([e]))[0]
            i = data.to_iid(o, e)
            must(0 <= i < len(objs[o]) and data.to_eid(o, i) == e,
                 'an object and its internal id', e, i)
            seen.add(int(i))
        must(len(seen) == len(objs[o]), 'internal ids differ')
        for e in (5001, 5002):
            raises(ValueError, lambda: data.to_iid(o, f(np.array([e]))[0]),
                   'no such external id')
    ev = np.array(data.event)
    must(ev.dtype.kind in 'iu' and ev.shape == raw.shape, 'events', ev)
    for r in range(len(raw)):
        for j, o in enumerate(cols):
            must(data.to_eid(o, ev[r, j]) == sp[r, j],
                 'stored event refers to its object', r, j)
    back = np.asarray(data.to_eid_event(ev))
    must(back.dtype == sp.dtype, 'type of decoded ids', back.dtype, sp.dtype)
    eq(back, sp, 'decoded events')
    eq(data.to_iid_event(sp), ev, 'encoded events')
    for r in range(min(3, len(raw))):
        eq(data.to_eid_event(ev[r]), sp[r], 'one decoded event')
        eq(data.to_iid_event(sp[r]), ev[r], 'one encoded event')
    left = data.filter_event(np.arange(len(raw)) % 2 == 0)
    eq(left.to_eid_event(left.event), sp[::2], 'filtered events')
    for o in range(c['n_otypes']):
        for i in range(left.n_objects[o]):
            must(left.to_iid(o, left.to_eid(o, i)) == i,
                 'ids of filtered events')
    rec.nt(len(raw) > 1 and max(len(x) for x in objs) > 1)
    rec.label(c['special'])


@st.composite
def bad_specs(draw):
    n = draw(st.integers(-2, 4))
    eo = draw(st.one_of(st.none(), st.lists(
        st.integers(-2, 5), min_size=1, max_size=4)))
    nested = draw(st.integers(0, 5)) == 0
    return {'n': n, 'eo': eo, 'nested': nested}


@sub('C01', 'specification', bad_specs(), 200, 2000,
     'a specification that must be rejected')
def specification(case, rec):
    n, eo = case['n'], case['eo']
    arg = [eo] if case['nested'] and eo is not None else eo
    bad = n < 1 or (eo is not None and (
        case['nested'] or min(eo) < 0 or max(eo) >= n))
    for cls in (EventData, EventWithScoreData):
        if bad:
            raises(ValueError, lambda: cls(n_otypes=n, event_otypes=arg),
                   'an illegal specification of object types')
        else:
            d = cls(n_otypes=n, event_otypes=arg)
            must(d.n_otypes == n, 'n_otypes')
            eq(d.event_otypes, list(range(n)) if eo is None else eo,
               'event_otypes')
            must(d.s_event == (n if eo is None else len(eo)), 's_event')
    rec.nt(bad)
    rec.label('rejected', bad)
    rec.label('accepted', not bad)


# -- narrow integers hold the ids --------------------------------------------------------

@st.composite
def narrow_cases(draw):
    t = draw(st.sampled_from(['i1', 'u1', 'i2', 'u2', 'i1', 'i4']))
    size = 2 ** min(8 * int(t[1]), 16)
    n = [draw(st.sampled_from([size, size // 2 + 1, size // 2, size - 1, 3]))
         for _ in range(2)]
    eo = draw(st.sampled_from([None, None, [1, 0], [0, 0], [1, 0, 1]]))
    return {'type': t, 'n': n, 'event_otypes': eo, 'fill': draw(
        st.booleans()), 'seed': draw(st.integers(0, 10 ** 6))}


@sub('C01', 'narrow', narrow_cases(), 60, 600,
     'more objects than the largest number of their integer type')
def narrow(case, rec):
    c = case
    rng = np.random.RandomState(c['seed'])
    info = np.iinfo(c['type'])
    low, span = int(info.min), int(info.max) - int(info.min) + 1
    eo = [0, 1] if c['event_otypes'] is None else c['event_otypes']
    ids = [low + rng.choice(min(span, 2 ** 16), n, replace=False)
           for n in c['n']]
    cols = [np.r_[ids[o], rng.choice(ids[o], max(c['n']) - c['n'][o])]
            for o in eo]
    raw = np.stack([rng.permutation(x) for x in cols], axis=1)
    raw = raw.astype(c['type'])
    data = EventData(event_otypes=c['event_otypes'])
    if c['fill']:
        data.set_event(raw[::2])
    keep = raw.copy()
    data.set_event(raw)
    eq(raw, keep, 'the given events are left as they were')
    ev = np.asarray(data.event)
    for o in set(eo):
        n = c['n'][o]
        eq(np.sort(data.eid[o]), np.sort(ids[o]), 'external ids of a type')
        must(data.n_objects[o] == n == len(data.iid[o]), 'number of objects')
        eq([data.to_iid(o, int(e)) for e in data.eid[o]], np.arange(n),
           'to_iid(to_eid(i)) == i for all objects')
    for j, o in enumerate(eo):
        must(ev[:, j].min() >= 0 and ev[:, j].max() < c['n'][o],
             'internal ids of events are in range', ev[:, j].min(),
             ev[:, j].max())
        eq(data.eid[o][ev[:, j]], raw[:, j], 'events refer to objects')
    eq(data.to_eid_event(data.event), raw, 'decoded events')
    eq(data.to_iid_event(raw), ev, 'encoded events')
    wide = raw.astype(int)
    eq(data.to_iid_event(wide), ev, 'events encoded from wide integers')
    eq(data.to_iid_event(wide + 2 ** 20), np.broadcast_to(
        [c['n'][o] for o in eo], ev.shape), 'unknown objects')
    eq(data.to_eid_event(data.event[0]), raw[0], 'one decoded event')
    eq(data.to_iid_event(raw[0]), ev[0], 'one encoded event')
    pick = np.arange(len(raw)) % 3 > 0
    part = data.filter_event(pick)
    eq(part.to_eid_event(part.event), raw[pick], 'selected events')
    rec.nt(max(c['n']) > info.max)
    rec.label(c['type'])


@sub('C01', 'large', gen.large(), 60, 500,
     'more objects of a type than 16 bits count')
def large(case, rec):
    c = case
    ids, rows = gen.large_ids(c), gen.large_rows(c)
    width = max(x.dtype.itemsize for x in ids) // 4
    raw = np.stack([ids[o][rows[:, o]] for o in range(2)], axis=1).astype(
        'U%d' % width if c['kind'] == 'str' else ids[0].dtype)
    data = EventData()
    data.set_event(raw)
    eq(data.n_objects, c['n'], 'numbers of objects')
    must(data.n_events == len(raw), 'number of events')
    ev = np.asarray(data.event)
    must(ev.dtype.kind in 'iu', 'events are integers', ev.dtype)
    for o in range(2):
        n = c['n'][o]
        eq(np.sort(data.eid[o]), ids[o], 'external ids of a type')
        must(len(data.iid[o]) == n, 'size of the internal id table')
        eq([data.to_iid(o, e) for e in data.eid[o].tolist()], np.arange(n),
           'to_iid(to_eid(i)) == i for all objects')
        eq(data.to_eid(o, np.arange(n)), data.eid[o], 'external ids of all')
        must(ev[:, o].min() >= 0 and ev[:, o].max() < n,
             'internal ids of events are in range',
             ev[:, o].min(), ev[:, o].max())
        eq(data.eid[o][ev[:, o]], raw[:, o],
           'stored events refer to their objects')
        raises(ValueError, lambda: data.to_eid(o, n), 'id out of range')
        raises(ValueError, lambda: data.to_eid(o, -1), 'negative id')
    eq(data.to_eid_event(data.event), raw, 'to_eid_event of all events')
    eq(data.to_iid_event(raw), ev, 'to_iid_event of all events')
    for r in (0, len(raw) // 2, -1):
        eq(data.to_eid_event(data.event[r]), raw[r], 'one decoded event')
        eq(data.to_iid_event(raw[r]), ev[r], 'one encoded event')
    un = raw[:1].copy()
    un[0, 1] = 'no such' if c['kind'] == 'str' else -10 ** 6
    eq(data.to_iid_event(un)[0], [ev[0, 0], c['n'][1]],
       'an unknown object is the number of objects')
    # a part of the events
    pick = np.random.RandomState(c['seed']).rand(len(raw)) < 0.5
    part = data.filter_event(pick)
    eq(part.to_eid_event(part.event), raw[pick], 'selected events')
    eq([len(np.unique(raw[pick][:, o])) for o in range(2)], part.n_objects,
       'numbers of selected objects')
    eq(data.to_eid_event(data.event), raw, 'events after a selection')
    rec.nt(max(c['n']) > 2 ** 15)
    rec.label('more than 8 bits', max(c['n']) > 2 ** 8)
    rec.label('ids:' + c['kind'])
