"""
Shared by the checks of recommenders: cases, containers, naive objectives.
"""
import math

from hypothesis import strategies as st
import numpy as np
from scipy.optimize import OptimizeResult

from kamrecsys.data import EventData, EventWithScoreData
from kamrecsys.item_finder import ImplicitLogisticPMF, LogisticPMF
from kamrecsys.score_predictor import MultinomialPLSA, PMF

from . import gen
from .core import eq, must

MF = {'pmf': PMF, 'lpmf': LogisticPMF, 'ilpmf': ImplicitLogisticPMF}


@st.composite
def layouts(draw):
    """n_otypes, event_otypes, event_index with two used columns"""
    if draw(st.integers(0, 2)) > 0:
        return 2, None, None
    n, most = draw(st.integers(1, 3)), 4
    if draw(st.integers(0, 7)) == 0:
        n, most = draw(st.integers(4, 9)), 12
    eo = draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=most))
    if eo == list(range(n)) and draw(st.booleans()):
        eo = None
    s = n if eo is None else len(eo)
    if s > 2 or draw(st.booleans()):
        ei = draw(st.permutations(list(range(s))))[:2]
    else:
        ei = None
    return n, eo, ei


@st.composite
def datasets(draw, kinds=('small', 'int', 'str', 'float', 'wide'),
             max_rows=14, binary=None, pool=6, min_rows=1):
    """
    events with scores as level numbers; `binary`: None (a domain is drawn) or
    True (0/1 with both classes)
    """
    kind = draw(st.sampled_from(list(kinds)))
    n, eo, ei = draw(layouts())
    cols = list(range(n)) if eo is None else eo
    big = draw(st.integers(0, 3)) > 0
    pools = [draw(gen.id_pool(kind, pool, 3 if big else 1)) for _ in range(n)]
    rows = draw(gen.rows_of(
        kind, pools, cols, max(min_rows, 5 if big else 1), max_rows))
    c = {'kind': kind, 'n_otypes': n, 'event_otypes': eo, 'event_index': ei,
         'rows': rows, 'idtype': draw(st.sampled_from(gen.TYPES))}
    if binary:
        if len(rows) < 2:
            c['rows'] = rows = rows * 2
        sc = draw(st.lists(st.integers(0, 1), min_size=len(rows),
                           max_size=len(rows)))
        if min(sc) == max(sc):
            sc[draw(st.integers(0, len(rows) - 1))] = 1 - sc[0]
        c['domain'] = {'a': 0, 's': 1, 'q': 1, 'n': 2}
    else:
        c['domain'] = draw(gen.domains(max_levels=6))
        pick = st.integers(0, c['domain']['n'] - 1)
        whole = [i for i, x in enumerate(gen.levels_of(c['domain']))
                 if x == int(x)]
        if 0 < len(whole) < c['domain']['n'] and draw(st.booleans()):
            # whole numbers on a domain with others
            pick = st.sampled_from(whole)
        sc = draw(st.lists(pick, min_size=len(rows), max_size=len(rows)))
    c['scores'] = sc
    c['sctype'] = draw(gen.score_types)
    c['layout'] = draw(gen.layouts)
    return c


def for_model(name):
    return datasets(binary=(name == 'lpmf'))


def scores_of(c):
    lev = gen.levels_of(c['domain'])
    return [lev[i] for i in c['scores']]


def container(c, plain=False):
    cls = EventData if plain else EventWithScoreData
    eo = c['event_otypes'] if c['event_otypes'] is None else np.array(
        c['event_otypes'])
    data = cls(n_otypes=c['n_otypes'], event_otypes=eo)
    if eo is not None:
        # the container has its own
        eo[...] = 0
    raw = gen.retype(gen.id_array(c['rows'], c['kind'], len(gen.cols_of(c))),
                     c.get('idtype'))
    raw = gen.lay(raw, c.get('layout'))
    if plain:
        data.set_event(raw)
    else:
        dom = c['domain']
        triple = (0, 1, 1) if (dom['a'], dom['s'], dom['q'], dom['n']) == (
            0, 1, 1, 2) else gen.triple_of(dom)
        data.set_event(
            raw, gen.retype_scores(scores_of(c), c.get('sctype')),
            score_domain=triple)
    return data


def index_of(c):
    return [0, 1] if c['event_index'] is None else list(c['event_index'])


def used_types(c):
    cols = gen.cols_of(c)
    return [cols[i] for i in index_of(c)]


def fit(rec, data, c):
    if c['event_index'] is None and getattr(data, 'n_events', 1) % 3 == 0:
        # all of the two columns
        rec.fit(data, event_index=None)
    elif c['event_index'] is None:
        rec.fit(data)
    elif len(c['rows']) % 2:
        index = np.array(c['event_index'])
        rec.fit(data, event_index=index)
        # the caller uses its array for something else
        index[:] = index[::-1].copy()
    else:
        rec.fit(data, event_index=tuple(c['event_index']))
    return rec


def worn(rec, c):
    """
    the recommender, in some cases after it was fitted to other events, with
    another domain of scores of the same size, and predicted for them
    """
    if c['seed'] % 3 or not isinstance(c.get('rows', [0])[0], (list, tuple)):
        return rec
    old = dict(c, rows=c['rows'][::-1][:max(2, len(c['rows']) - 2)])
    if c['seed'] % 2:
        old['rows'] = old['rows'] + [c['rows'][0]]
    old['scores'] = [c['scores'][i % len(c['scores'])]
                     for i in range(len(old['rows']))]
    dom = c['domain']
    if isinstance(rec, LogisticPMF):
        old['scores'][:2] = [0, 1]
    elif (dom['a'], dom['s'], dom['q'], dom['n']) != (0, 1, 1, 2):
        old['domain'] = dict(dom, a=dom['a'] - 3 * dom['s'])
        if c['seed'] % 5 == 0:
            old['domain']['n'] += 1
    data = container(old)
    fit(rec, data, old)
    row = gen.id_array(old['rows'], c['kind'], len(gen.cols_of(c)))
    rec.predict(row)
    return rec


def pairs_of(c, data):
    """internal ids of the used columns, by the container's own tables"""
    i, j = index_of(c)
    t, u = used_types(c)
    return [(int(data.to_iid(t, r[i])), int(data.to_iid(u, r[j])))
            for r in c['rows']]


def sizes_of(c, data):
    t, u = used_types(c)
    return len(data.eid[t]), len(data.eid[u])


def result(x, **kw):
    d = dict(x=x, fun=0.0, success=True, status=0, message='recorded',
             nit=0, nfev=0, njev=0)
    d.update(kw)
    return OptimizeResult(**d)


class Probe(object):
    """a custom optimizer that hands control to `body(f, g, x0, options)`"""

    def __init__(self, body):
        self.body = body
        self.calls = 0

    def __call__(self, fun, x0, args=(), jac=None, **options):
        self.calls += 1
        if not isinstance(args, tuple):
            args = (args,)

        def f(x):
            return fun(np.array(x, dtype=float), *args)

        def g(x):
            return np.array(jac(np.array(x, dtype=float), *args))
        return self.body(f, g, np.array(x0), options)

    def __deepcopy__(self, memo):
        return self


def params_of(rec):
    """public parameters without the rows of unknown objects"""
    return (float(np.asarray(rec.mu_).ravel()[0]),
            np.asarray(rec.bu_)[:-1], np.asarray(rec.bi_)[:-1],
            np.asarray(rec.p_)[:-1], np.asarray(rec.q_)[:-1])


def layout_of(make, data, c):
    """positions of the public parameters in the vector of the optimizer"""
    rec = make(Probe(lambda f, g, x0, o: result(
        np.arange(len(x0), dtype=float))))
    fit(rec, data, c)
    mu, bu, bi, p, q = params_of(rec)
    pos = [np.array(mu), bu, bi, p, q]
    flat = sorted(int(v) for a in pos for v in np.asarray(a).ravel())
    must(flat == list(range(len(flat))),
         'every parameter of the model is optimized exactly once', flat)
    return [np.asarray(a).astype(int) for a in pos], len(flat)


def unpack(x, pos):
    x = np.asarray(x, dtype=float)
    return (float(x[int(pos[0])]),) + tuple(x[a] for a in pos[1:])


def linear(par, u, i):
    mu, bu, bi, p, q = par
    return mu + bu[u] + bi[i] + math.fsum(
        float(a) * float(b) for a, b in zip(p[u], q[i]))


def sigmoid(x):
    x = min(max(x, -34.538776394910684), 34.538776394910684)
    return 1.0 / (1.0 + math.exp(-x)) if x >= 0 else \
        math.exp(x) / (1.0 + math.exp(x))


def log_sigmoid(x):
    """log of the logistic function"""
    return -math.log1p(math.exp(-x)) if x >= 0 else x - math.log1p(math.exp(x))


def terms_of(name, c, data):
    """the events of the objective: (user, item, target)"""
    pairs = pairs_of(c, data)
    if name != 'ilpmf':
        return [(u, i, r) for (u, i), r in zip(pairs, scores_of(c))]
    nu, ni = sizes_of(c, data)
    pos = set(pairs)
    return [(u, i, 1.0 if (u, i) in pos else 0.0)
            for u in range(nu) for i in range(ni)]


def objective(name, terms, par, C):
    """(objective, numerical tolerance), by the definition"""
    acc, tol = [], 0.0
    for u, i, r in terms:
        x = linear(par, u, i)
        if name == 'pmf':
            acc.append(0.5 * (r - x) ** 2)
            tol += (abs(r) + abs(x)) ** 2
        else:
            # log(1 - sigmoid) loses digits if sigmoid is close to one
            acc.append(-(r * log_sigmoid(x) + (1 - r) * log_sigmoid(-x)))
            tol += math.exp(min(abs(x), 34.6)) + abs(x)
    for a in par[1:]:
        for v in np.asarray(a).ravel():
            acc.append(0.5 * C * float(v) ** 2)
            tol += C * float(v) ** 2
    return math.fsum(acc), 1e-13 * (tol + 1.0)


def gradient(name, terms, par, C):
    mu, bu, bi, p, q = par
    g = [np.zeros(()), np.zeros(bu.shape), np.zeros(bi.shape),
         np.zeros(p.shape), np.zeros(q.shape)]
    for u, i, r in terms:
        x = linear(par, u, i)
        e = (x if name == 'pmf' else sigmoid(x)) - r
        g[0] += e
        g[1][u] += e
        g[2][i] += e
        for f in range(p.shape[1]):
            g[3][u, f] += e * q[i, f]
            g[4][i, f] += e * p[u, f]
    for a, b in zip(g[1:], par[1:]):
        a += C * b
    return g


def pack(parts, pos, n):
    x = np.zeros(n)
    x[int(pos[0])] = float(parts[0])
    for a, b in zip(pos[1:], parts[1:]):
        x[a.ravel()] = np.asarray(b).ravel()
    return x


def quiet_maker(name, C, k, seed, **kw):
    return MF[name](C=C, k=k, random_state=seed, **kw)


def factors(most):
    """numbers of latent factors, mostly few"""
    few = st.integers(1, most)
    return st.one_of(few, few, few, few, few, st.integers(most + 1, 12))


LATE = [None, None, None, None, 'attributes', 'set_params']


def late_maker(how, name, C, k, seed, **kw):
    """a recommender whose settings are given after its construction"""
    if how is None:
        return any_maker(name, C, k, seed, **kw)
    rec = any_maker(name, C + 1.5, k % 3 + 1, (seed or 0) + 1, **kw)
    settings(rec, how, C, k, seed)
    return rec


def settings(rec, how, C, k, seed):
    """change the settings of a recommender"""
    new = {'k': k, 'random_state': seed,
           'C' if hasattr(rec, 'C') else 'alpha': C}
    if how == 'set_params':
        must(rec.set_params(**new) is rec, 'set_params returns itself')
    else:
        for a, v in new.items():
            setattr(rec, a, v)
    got = rec.get_params()
    must({a: got[a] for a in new} == new, 'parameters', got, new)


ALL = ['pmf', 'lpmf', 'ilpmf', 'plsa', 'plsam']
PARAMS = {'plsa': ('pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_', 'score_levels')}


def flag(value, i):
    """a truth value of some type"""
    return [bool, np.bool_, int][i % 3](value)


def any_maker(name, C, k, seed, maxiter=None, **kw):
    """a recommender by name; `C` is the smoothing parameter of pLSA"""
    if maxiter is not None:
        kw['maxiter'] = maxiter
    # settings are numbers of some types
    i = int(seed) // 7 if isinstance(seed, (int, np.integer)) else 0
    k = [int, np.int64, np.int32][i % 3](k)
    C = np.float64(C) if i % 2 else C
    if name in ('plsa', 'plsam'):
        return MultinomialPLSA(k=k, alpha=C, random_state=seed,
                               use_expectation=flag(name == 'plsa', i // 6),
                               **kw)
    return MF[name](C=C, k=k, random_state=seed, **kw)


def all_params(name, rec):
    """every learned parameter, copied"""
    return [np.array(getattr(rec, a)) for a in
            (PARAMS['plsa'] if name.startswith('plsa') else
             ('mu_', 'bu_', 'bi_', 'p_', 'q_'))]


def same(a, b, what):
    for x, y in zip(a, b):
        eq(x, y, what)


def plain_value(v):
    """for comparison of fitting results"""
    if isinstance(v, dict):
        return {k: plain_value(x) for k, x in v.items()}
    if isinstance(v, (np.ndarray, np.generic)):
        return v.tolist()
    if isinstance(v, bytes):
        return v.decode()
    return v


def same_results(a, b, what):
    a, b = plain_value(a), plain_value(b)
    must(a == b, what, a, b)


# -- many users and items ---------------------------------------------------------

@st.composite
def large(draw, name, sizes=(90, 129, 200, 257, 300, 1000), huge=False):
    """cases of `gen.large` for the recommender `name`"""
    if name == 'ilpmf':
        sizes = [n for n in sizes if n <= 300]
    c = draw(gen.large(huge=huge, sizes=tuple(sizes)))
    c['event_index'] = None
    c['event_otypes'] = None
    c['n_otypes'] = 2
    c['k'] = draw(factors(4))
    c['C'] = draw(st.sampled_from([0.01, 0.5, 1, 2]))
    c['levels'] = 2 if name == 'lpmf' else draw(st.sampled_from([2, 5, 10]))
    return c


def large_container(c):
    """(container, events of external ids, scores)"""
    ids, rows = gen.large_ids(c), gen.large_rows(c)
    raw = np.stack([ids[o][rows[:, o]].astype(object) for o in range(2)],
                   axis=1)
    raw = raw.astype(str) if c['kind'] == 'str' else \
        raw.astype(ids[0].dtype)
    rng = np.random.RandomState(c['seed'] + 2)
    sc = rng.randint(0, c['levels'], len(raw))
    sc[:2] = [0, c['levels'] - 1]
    data = EventWithScoreData()
    data.set_event(
        gen.lay(raw, gen.LAYOUTS[c['seed'] % len(gen.LAYOUTS)]),
        gen.retype_scores(
            sc, gen.SCORE_TYPES[c['seed'] % len(gen.SCORE_TYPES)]),
        score_domain=(0, c['levels'] - 1, 1))
    return data, raw, sc


def linear_all(par, u, i):
    mu, bu, bi, p, q = par
    return mu + bu[u] + bi[i] + (p[u] * q[i]).sum(axis=1)


def terms_all(name, data, sc):
    """arrays of users, items and targets of the objective"""
    ev = np.asarray(data.event)
    if name != 'ilpmf':
        return ev[:, 0], ev[:, 1], np.asarray(sc, dtype=float)
    n = [len(e) for e in data.eid]
    t = np.zeros(n)
    t[ev[:, 0], ev[:, 1]] = 1.0
    u, i = np.indices(n)
    return u.ravel(), i.ravel(), t.ravel()


def objective_all(name, terms, par, C):
    u, i, r = terms
    x = linear_all(par, u, i)
    if name == 'pmf':
        loss = 0.5 * (r - x) ** 2
    else:
        loss = r * np.logaddexp(0, -x) + (1 - r) * np.logaddexp(0, x)
    return loss.sum() + 0.5 * C * sum((a ** 2).sum() for a in par[1:])


def gradient_all(name, terms, par, C):
    u, i, r = terms
    x = linear_all(par, u, i)
    e = (x if name == 'pmf' else 1 / (1 + np.exp(-x))) - r
    mu, bu, bi, p, q = par
    g = [e.sum(), np.bincount(u, e, len(bu)) + C * bu,
         np.bincount(i, e, len(bi)) + C * bi, C * p, C * q]
    for f in range(p.shape[1]):
        g[3][:, f] += np.bincount(u, e * q[i, f], len(bu))
        g[4][:, f] += np.bincount(i, e * p[u, f], len(bi))
    return g


__all__ = [n for n in dir() if not n.startswith('_')] + ['MultinomialPLSA']
