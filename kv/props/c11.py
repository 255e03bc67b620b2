"""C11: renaming objects does not change what is learned"""
from hypothesis import strategies as st
import numpy as np
from ..core import sub, must, eq
from .. import gen
from .. import models as m
from .c10 import queries


def settings(draw, c, name):
    c['name'] = name
    c['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
    c['k'] = draw(st.integers(1, 3))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['maxiter'] = draw(st.sampled_from([1, 2, 3, 8]))


def train(c, data, event_index=()):
    rec = m.any_maker(c['name'], c['C'], c['k'], c['seed'],
                      maxiter=c['maxiter'])
    if event_index == ():
        return m.fit(rec, data, c)
    return rec.fit(data, event_index=event_index) or rec


def compare(c, a, b, what):
    m.same(m.all_params(c['name'], a), m.all_params(c['name'], b),
           'parameters learned from ' + what)
    m.same_results(a.fit_results_, b.fit_results_,
                   'fitting results for ' + what)


@st.composite
def rename_cases(draw, names):
    name = draw(st.sampled_from(names))
    c = draw(m.for_model(name))
    settings(draw, c, name)
    c['queries'] = draw(queries(c))
    kind = draw(st.sampled_from(['small', 'int', 'str', 'str', 'float',
                                 'wide']))
    c['new_kind'] = kind
    new = []
    for o, known in enumerate(gen.objects_of(c)):
        used = known | set(
            r[j] for r in c['queries']
            for j in range(len(gen.cols_of(c))) if gen.cols_of(c)[j] == o)
        n = len(used)
        new.append(sorted(draw(gen.id_pool(kind, n + 3, n))) if n else [])
        # strictly increasing for all ids in training data and queries
        drop = draw(st.lists(
            st.integers(0, 20), min_size=len(new[-1]) - n,
            max_size=len(new[-1]) - n))
        for d in drop:
            del new[-1][d % len(new[-1])]
    c['new'] = new
    return c


def renamed(c):
    cols = gen.cols_of(c)
    known = gen.objects_of(c)
    tab = []
    for o in range(c['n_otypes']):
        old = known[o] | set(r[j] for r in c['queries']
                             for j in range(len(cols)) if cols[j] == o)
        tab.append(dict(zip(sorted(old), c['new'][o])))

    def f(rows):
        return [[tab[o][x] for o, x in zip(cols, r)] for r in rows]
    return dict(c, kind=c['new_kind'], rows=f(c['rows']),
                queries=f(c['queries']))


def rename_check(case, rec):
    c = case
    d = renamed(c)
    dc, dd = m.container(c), m.container(d)
    a, b = train(c, dc), train(d, dd)
    compare(c, a, b, 'renamed objects')
    n = len(gen.cols_of(c))
    eq(a.predict(gen.id_array(c['queries'], c['kind'], n)),
       b.predict(gen.id_array(d['queries'], d['kind'], n)),
       'predictions for renamed events')
    t, u = m.used_types(c)
    rec.nt(len(gen.objects_of(c)[t]) > 2 and len(gen.objects_of(c)[u]) > 1)
    rec.label('to strings', d['kind'] == 'str' and c['kind'] != 'str')
    rec.label('from strings', d['kind'] != 'str' and c['kind'] == 'str')
    rec.label(c['name'])


RULE = 'more than two objects of one and one of the other used type'


@sub('C11', 'factorization', rename_cases(['pmf', 'lpmf', 'ilpmf']),
     450, 4500, RULE)
def factorization(case, rec):
    rename_check(case, rec)


@sub('C11', 'plsa', rename_cases(['plsa', 'plsam']), 350, 3500, RULE)
def plsa(case, rec):
    rename_check(case, rec)


@st.composite
def special_cases(draw):
    name = draw(st.sampled_from(m.ALL))
    c = draw(m.for_model(name).filter(lambda c: c['kind'] in ('small', 'int')))
    settings(draw, c, name)
    c['queries'] = draw(queries(c))
    c['special'] = draw(gen.specials)
    return c


@sub('C11', 'types', special_cases(), 150, 1500, RULE)
def types(case, rec):
    """numbers become dates, bytes, or large unsigned numbers"""
    c = case
    f = gen.SPECIAL[c['special']]
    da, db = m.container(c), m.container(c)
    db.set_event(f(gen.id_array(c['rows'], c['kind'])),
                 np.array(m.scores_of(c)),
                 score_domain=tuple(da.score_domain.tolist()))
    a, b = train(c, da), train(c, db)
    compare(c, a, b, 'renamed objects')
    q = gen.id_array(c['queries'], c['kind'], len(gen.cols_of(c)))
    eq(a.predict(q), b.predict(f(q)), 'predictions for renamed events')
    eq(a.predict(q[0]), b.predict(f(q)[0]), 'prediction for a renamed event')
    t, u = m.used_types(c)
    rec.nt(len(gen.objects_of(c)[t]) > 2 and len(gen.objects_of(c)[u]) > 1)
    rec.label(c['special'])


# -- columns and features that must not matter ---------------------------------

@st.composite
def extra_cases(draw):
    name = draw(st.sampled_from(m.ALL))
    c = {'kind': draw(st.sampled_from(['small', 'int', 'str', 'float']))}
    shared = draw(st.integers(0, 3)) == 0
    n_used = 1 if shared else 2
    n_types = n_used + draw(st.integers(1, 2))
    perm = draw(st.permutations(list(range(n_types))))
    used = [perm[0], perm[0]] if shared else perm[:2]
    other = perm[n_used:]
    extra = [draw(st.sampled_from(other))
             for _ in range(draw(st.integers(1, 2)))]
    place = draw(st.permutations(list(range(2 + len(extra)))))
    eo = [None] * len(place)
    for t, p in zip(list(used) + extra, place):
        eo[p] = t
    pools = [draw(gen.id_pool(c['kind'], 6, 2)) for _ in range(n_types)]
    n = draw(st.integers(2, 12))
    core = draw(st.lists(st.tuples(
        *[st.sampled_from(pools[t]) for t in used]).map(list),
        min_size=n, max_size=n))

    def extras():
        return draw(st.lists(st.tuples(
            *[st.sampled_from(pools[t]) for t in extra]).map(list),
            min_size=n, max_size=n))
    c.update(n_otypes=n_types, event_otypes=eo, place=list(place), core=core,
             ea=extras(), eb=extras())
    if name == 'lpmf':
        sc = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
        if min(sc) == max(sc):
            sc[0] = 1 - sc[0]
        c['domain'] = {'a': 0, 's': 1, 'q': 1, 'n': 2}
    else:
        c['domain'] = draw(gen.domains(max_levels=5))
        sc = draw(st.lists(st.integers(0, c['domain']['n'] - 1), min_size=n,
                           max_size=n))
    c['scores'] = sc
    c['event_index'] = list(place[:2])
    settings(draw, c, name)
    c['features'] = draw(st.sampled_from(
        ['none', 'event', 'object', 'both']))
    c['shared'] = shared
    return c


@sub('C11', 'irrelevant', extra_cases(), 350, 3500,
     'unused columns differ and more than three events')
def irrelevant(case, rec):
    c = case

    def weave(extra):
        rows = []
        for a, b in zip(c['core'], extra):
            r = [None] * len(c['place'])
            for v, p in zip(list(a) + list(b), c['place']):
                r[p] = v
            rows.append(r)
        return rows
    ca, cb = dict(c, rows=weave(c['ea'])), dict(c, rows=weave(c['eb']))
    da = m.container(ca)
    # the other one has features, too
    rng = np.random.RandomState(c['seed'])
    db = m.container(cb)
    if c['features'] in ('event', 'both'):
        dom = c['domain']
        triple = tuple(da.score_domain.tolist())
        must(dom['n'] >= 2, 'domain')
        db.set_event(
            gen.id_array(cb['rows'], c['kind']), np.array(m.scores_of(c)),
            score_domain=triple,
            event_feature=rng.normal(size=(len(cb['rows']), 2)))
    if c['features'] in ('object', 'both'):
        for o in range(c['n_otypes']):
            n = len(db.eid[o])
            if n:
                db.set_feature(o, np.array(db.eid[o]),
                               rng.normal(size=(n, 3)))
    a, b = train(ca, da), train(cb, db)
    compare(c, a, b, 'data with other unused columns and features')
    # only the used columns
    cc = dict(c, rows=c['core'], n_otypes=1 if c['shared'] else 2,
              event_otypes=[0, 0] if c['shared'] else None,
              event_index=None)
    d = train(cc, m.container(cc))
    compare(c, a, d, 'data without unused columns')
    pa = a.predict(gen.id_array(ca['rows'], c['kind']))
    eq(a.predict(gen.id_array(cb['rows'], c['kind'])), pa,
       'predictions with other unused columns')
    eq(b.predict(gen.id_array(cb['rows'], c['kind'])), pa,
       'predictions by the recommender with features')
    eq(d.predict(gen.id_array(cc['rows'], c['kind'])), pa,
       'predictions without unused columns')
    rec.nt(c['ea'] != c['eb'] and len(c['core']) > 3)
    rec.label('features', c['features'] != 'none')
    rec.label('shared type', c['shared'])
    rec.label(c['name'])


# -- many objects ---------------------------------------------------------------------

@st.composite
def large_cases(draw):
    name = draw(st.sampled_from(m.ALL))
    c = draw(m.large(name))
    c['name'] = name
    c['new_kind'] = draw(st.sampled_from(['int', 'wide', 'str', 'float']))
    c['maxiter'] = draw(st.sampled_from([0, 1, 1]))
    return c


@sub('C11', 'large', large_cases(), 20, 200,
     'more users or items than 8 bits count')
def large(case, rec):
    c = case
    got = []
    # strings of other lengths, numbers of other sizes: sorted in both
    for kind in (c['kind'], c['new_kind']):
        d = dict(c, kind=kind)
        data, raw, _ = m.large_container(d)
        got.append((train(d, data), raw))
    (a, ra), (b, rb) = got
    compare(c, a, b, 'many renamed objects')
    pick = np.random.RandomState(c['seed']).randint(0, len(ra), 1100)
    eq(a.predict(ra[pick]), b.predict(rb[pick]),
       'predictions for many renamed events')
    rec.nt(max(c['n']) > 256)
    rec.label(c['name'])
