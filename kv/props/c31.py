"""C31: training starts at the means of the data, with random latent factors"""
from collections import defaultdict
import copy
import math
from hypothesis import strategies as st
import numpy as np
from scipy import stats as sps
from ..core import sub, must, eq, close
from .. import gen
from .. import models as m

# types of seeds
NUMBERS = [np.int64, np.int32, np.uint32]


@st.composite
def cases(draw, name):
    c = draw(m.for_model(name))
    c['C'] = draw(st.sampled_from([0, 0.1, 1, 3.0]))
    c['k'] = draw(st.integers(1, 4))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['plain'] = draw(st.booleans())
    c['probe'] = draw(st.booleans())
    c['rows'] = c['rows'] * (reps := draw(st.sampled_from([1, 1, 1, 2])))
    c['scores'] = c['scores'] * reps
    return c


def start_of(make, data, c, probe):
    """parameters at the start of the optimization"""
    if probe:
        rec = make(method=m.Probe(lambda f, g, x0, o: m.result(x0)))
    else:
        rec = make(maxiter=0)
    m.fit(rec, data, c)
    return rec, m.params_of(rec)


def biases(name, c, data):
    """(global bias, users' and items' biases, residuals) by loops"""
    pairs = m.pairs_of(c, data)
    nu, ni = m.sizes_of(c, data)
    if name == 'ilpmf':
        pos = set(pairs)
        return (len(pos) / float(nu * ni),
                [sum((u, i) in pos for i in range(ni)) / float(ni)
                 for u in range(nu)],
                [sum((u, i) in pos for u in range(nu)) / float(nu)
                 for i in range(ni)], [])
    sc = [float(x) for x in m.scores_of(c)]
    mu = math.fsum(sc) / len(sc)
    bu, bi = [0.0] * nu, [0.0] * ni
    g = defaultdict(list)
    for (u, i), r in zip(pairs, sc):
        g[u].append(r - mu)
    for u, x in g.items():
        bu[u] = math.fsum(x) / len(x)
    g = defaultdict(list)
    for (u, i), r in zip(pairs, sc):
        g[i].append(r - mu - bu[u])
    for i, x in g.items():
        bi[i] = math.fsum(x) / len(x)
    return mu, bu, bi, [r - mu - bu[u] - bi[i]
                        for (u, i), r in zip(pairs, sc)]


def run(name, c, rec):
    data = m.container(c, plain=(name == 'ilpmf' and c['plain']))
    k = c['k']

    def make(seed=c['seed'], **kw):
        return m.quiet_maker(name, c['C'], k, seed, **kw)
    r, (mu, bu, bi, p, q) = start_of(make, data, c, c['probe'])
    wmu, wbu, wbi, res = biases(name, c, data)
    size = 1e-12 * (1 + max(abs(float(x)) for x in m.scores_of(c)))
    close(mu, wmu, 'global bias at the start', rtol=1e-10, atol=size)
    close(bu, wbu, "users' biases at the start", rtol=1e-10, atol=size)
    close(bi, wbi, "items' biases at the start", rtol=1e-10, atol=size)
    # random factors of the objects in the events, and of them only
    pairs = m.pairs_of(c, data)
    sd = 1.0
    if name == 'pmf':
        sd = math.sqrt(math.fsum(x * x for x in res) / len(res))
    fresh = []
    for a, at, what in ((p, 0, 'users'), (q, 1, 'items')):
        must(a.shape == (m.sizes_of(c, data)[at], k),
             'shape of latent factors of ' + what, a.shape)
        seen = set(x[at] for x in pairs) if name != 'ilpmf' else set(
            range(len(a)))
        for i in range(len(a)):
            if i in seen:
                fresh.extend(a[i].tolist())
            else:
                eq(a[i], np.zeros(k), 'factors of an object without events')
    if sd > 1e3 * size:
        must(len(set(fresh)) == len(fresh), 'equal random factors', fresh)
        must(max(abs(x) for x in fresh) < 10 * sd,
             'random factors out of ten standard deviations', fresh, sd)
        must(max(abs(x) for x in fresh) > 1e-12 * sd,
             'random factors are about zero', fresh, sd)
    else:
        must(max(abs(x) for x in fresh) <= 1e5 * size,
             'factors without residuals', fresh, sd)
    # the seed decides
    for make2, equal in (
            (lambda **kw: make(np.random.RandomState(c['seed']), **kw), True),
            (lambda **kw: make(NUMBERS[c['seed'] % 3](c['seed']), **kw),
             True),
            (lambda **kw: make((c['seed'] + 1) % 2 ** 31, **kw), False)):
        r2, par = start_of(make2, data, c, not c['probe'])
        eq(par[0], mu, 'global bias of another seed')
        eq(par[1], bu, 'biases of another seed')
        eq(par[2], bi, 'biases of another seed')
        if equal:
            eq(par[3], p, 'factors for the same seed in another form')
            eq(par[4], q, 'factors for the same seed in another form')
        elif sd > 1e3 * size:
            must(not set(x for x in np.concatenate(
                [par[3].ravel(), par[4].ravel()]).tolist() if x != 0.0) &
                set(fresh), 'the same factors for another seed')
    # a generator goes on, and so does the global one
    for g in (np.random.RandomState(c['seed']), None):
        one, two = [start_of(lambda **kw: make(g, **kw), data, c, True)[1]
                    for _ in range(2)]
        if g is not None:
            eq(one[3], p, 'factors for a generator')
        if sd > 1e3 * size:
            must(not np.array_equal(one[3], two[3]),
                 'one generator gives the same factors twice')
    rec.nt(len(c['rows']) > 2 and k > 1 and len(bu) > 1 and len(bi) > 1)
    rec.label('objects without events', len(set(u for u, _ in pairs)) <
              len(bu) or len(set(i for _, i in pairs)) < len(bi))
    rec.label('repeated events', len(set(pairs)) < len(pairs))
    rec.label('no residuals', not sd > 1e3 * size)


RULE = 'more than one user, item and factor, and more than two events'


@sub('C31', 'pmf', cases('pmf'), 250, 2500, RULE)
def pmf(case, rec):
    run('pmf', case, rec)


@sub('C31', 'logistic', cases('lpmf'), 250, 2500, RULE)
def logistic(case, rec):
    run('lpmf', case, rec)


@sub('C31', 'implicit', cases('ilpmf'), 200, 2000, RULE)
def implicit(case, rec):
    run('ilpmf', case, rec)


# -- objects without events stay as they are -------------------------------------------

@st.composite
def neutral_cases(draw):
    """the type of users or items also occurs in an unused column"""
    name = draw(st.sampled_from(['pmf', 'lpmf']))
    kind = draw(st.sampled_from(['small', 'int', 'str', 'float']))
    pool = draw(gen.id_pool(kind, 7, 4))
    other = draw(gen.id_pool(kind, 4, 2))
    eo = draw(st.sampled_from([[0, 1, 0], [0, 1, 1], [1, 0, 0], [0, 0, 1],
                               [0, 1, 0, 1]]))
    cols = list(range(len(eo)))
    ei = draw(st.permutations(cols))[:2]
    rows = draw(gen.rows_of(kind, [pool, other], eo, 3, 9))
    c = {'name': name, 'kind': kind, 'n_otypes': 2, 'event_otypes': eo,
         'event_index': ei, 'rows': rows}
    if name == 'lpmf':
        c['domain'] = {'a': 0, 's': 1, 'q': 1, 'n': 2}
    else:
        c['domain'] = draw(gen.domains(max_levels=5))
    sc = draw(st.lists(st.integers(0, c['domain']['n'] - 1),
                       min_size=len(rows), max_size=len(rows)))
    if name == 'lpmf':
        sc[0], sc[-1] = 0, 1
    c['scores'] = sc
    c['C'] = draw(st.sampled_from([0, 0.1, 1]))
    c['k'] = draw(st.integers(1, 3))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['options'] = draw(st.sampled_from(
        [{}, {'method': 'BFGS'}, {'method': 'CG'}, {'method': 'L-BFGS-B'}]))
    return c


@sub('C31', 'neutral', neutral_cases(), 150, 1500,
     'an object is in the container, but not in the selected columns')
def neutral(case, rec):
    c, name = case, case['name']
    data = m.container(c)
    r = m.quiet_maker(name, c['C'], c['k'], c['seed'], maxiter=15,
                      **copy.deepcopy(c['options']))
    m.fit(r, data, c)
    par = m.params_of(r)
    pairs = m.pairs_of(c, data)
    n = m.sizes_of(c, data)
    types = m.used_types(c)
    known = gen.objects_of(c)
    cols = gen.cols_of(c)
    at = m.index_of(c)
    found = False
    for s in range(2):
        seen = set(x[s] for x in pairs)
        unseen = [i for i in range(n[s]) if i not in seen]
        must(bool(np.isfinite(par[1 + s]).all() and
                  np.isfinite(par[3 + s]).all()), 'finite parameters')
        for i in unseen:
            found = True
            eq(float(par[1 + s][i]), 0.0, 'bias of an object without events')
            eq(par[3 + s][i], np.zeros(c['k']),
               'factors of an object without events')
            # it is predicted as if it were unknown
            row = list(c['rows'][0])
            base, strange = list(row), list(row)
            base[at[s]] = data.to_eid(types[s], i)
            u = gen.unknown_ids(c['kind'], known[cols[at[s]]])
            for x in u[:2]:
                strange[at[s]] = x
                a = gen.id_array([base], c['kind'], len(cols))
                b = gen.id_array([strange], c['kind'], len(cols))
                close(r.predict(a), r.predict(b),
                      'object without events against unknown object',
                      rtol=1e-12, atol=1e-12)
    # nor does it change what is learned of the others
    other = dict(c, rows=[[x[i] for i in at] for x in c['rows']],
                 event_otypes=[cols[i] for i in at], event_index=None)
    od = m.container(other)
    for maxiter, rtol in ((0, 1e-12), (2, 1e-6)):
        both = []
        for cc, dd in ((c, data), (other, od)):
            r = m.quiet_maker(name, c['C'], c['k'], c['seed'],
                              maxiter=maxiter, **copy.deepcopy(c['options']))
            m.fit(r, dd, cc)
            both.append(m.params_of(r))
        a, b = both
        close(a[0], b[0], 'global bias without unused columns', rtol=rtol,
              atol=1e-9)
        for s in range(2):
            seen = sorted(set(x[s] for x in pairs))
            ids = [data.to_eid(types[s], i) for i in seen]
            to = [od.to_iid(types[s], e) for e in ids]
            for j in (1 + s, 3 + s):
                close(a[j][seen], b[j][to],
                      'parameters without unused columns', rtol=rtol,
                      atol=1e-9 if maxiter == 0 else 1e-6)
    rec.nt(found)
    rec.label('C = 0', c['C'] == 0)
    rec.label(c['options'].get('method', 'default'))


# -- distribution of the random factors ------------------------------------------------

@st.composite
def many_cases(draw):
    name = draw(st.sampled_from(['pmf', 'lpmf', 'ilpmf']))
    c = draw(m.large(name))
    c['name'] = name
    c['k'] = draw(st.integers(2, 5))
    return c


@sub('C31', 'many', many_cases(), 40, 400, 'more than 200 random factors')
def many(case, rec):
    c, name = case, case['name']
    data, raw, sc = m.large_container(c)
    r, (mu, bu, bi, p, q) = start_of(
        lambda **kw: m.quiet_maker(name, c['C'], c['k'], c['seed'], **kw),
        data, c, True)
    ev = np.asarray(data.event)
    n = [len(e) for e in data.eid]
    if name == 'ilpmf':
        t = np.zeros(n)
        t[ev[:, 0], ev[:, 1]] = 1
        wmu, wbu, wbi, sd = t.mean(), t.mean(axis=1), t.mean(axis=0), 1.0
    else:
        s = np.asarray(sc, dtype=float)
        nu, ni = [np.maximum(np.bincount(ev[:, i], minlength=n[i]), 1)
                  for i in range(2)]
        wmu = s.mean()
        wbu = np.bincount(ev[:, 0], s - wmu, n[0]) / nu
        wbi = np.bincount(ev[:, 1], s - wmu - wbu[ev[:, 0]], n[1]) / ni
        sd = 1.0 if name == 'lpmf' else np.sqrt(np.mean(
            (s - wmu - wbu[ev[:, 0]] - wbi[ev[:, 1]]) ** 2))
    close(mu, wmu, 'global bias', rtol=1e-9)
    close(bu, wbu, "users' biases", rtol=1e-9, atol=1e-10)
    close(bi, wbi, "items' biases", rtol=1e-9, atol=1e-10)
    if sd < 1e-6:
        return
    x = np.concatenate([p.ravel(), q.ravel()])
    x = x[x != 0.0] / sd
    must(len(x) == c['k'] * sum(n) or name != 'ilpmf', 'zero factors')
    must(len(set(x.tolist())) == len(x), 'equal random factors')
    # five false alarms in 10**13 (7.2 standard deviations)
    tail = sps.kstest(x, 'norm').pvalue
    must(tail > 1e-12, 'factors are no standard normal numbers',
         float(tail), float(x.mean()), float(x.std()))
    for a in (p, q):
        a = a[np.any(a != 0.0, axis=1)]
        for f in range(1, c['k']):
            for other in (a[:, 0], ):
                rho = float(np.corrcoef(a[:, f], other)[0, 1])
                must(abs(rho) < math.tanh(8.0 / math.sqrt(
                    max(len(a) - 3, 1))) or len(a) < 60,
                    'factors are correlated', rho, len(a))
    rec.nt(len(x) > 200)
    rec.label(name)


# -- topic models ----------------------------------------------------------------------

@st.composite
def plsa_cases(draw):
    c = draw(m.for_model('plsa'))
    c['C'] = draw(st.sampled_from([0.5, 1, 3.0]))
    c['k'] = draw(st.integers(2, 4))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 2))
    c['maxiter'] = draw(st.sampled_from([0, 0, 1, 5]))
    return c


@sub('C31', 'topics', plsa_cases(), 120, 1200, 'more than two events')
def topics(case, rec):
    c = case
    data = m.container(c)

    def learn(seed):
        r = m.any_maker('plsa', c['C'], c['k'], seed, maxiter=c['maxiter'])
        m.fit(r, data, c)
        return m.all_params('plsa', r)
    one = learn(c['seed'])
    m.same(learn(np.random.RandomState(c['seed'])), one,
           'a RandomState instead of its seed')
    m.same(learn(NUMBERS[c['seed'] % 3](c['seed'])), one,
           'a seed of a numpy type')
    must(not np.array_equal(learn(c['seed'] + 1)[0], one[0]),
         'another seed makes no difference', one[0])
    for g in (np.random.RandomState(c['seed']), None):
        a, b = learn(g), learn(g)
        must(not np.array_equal(a[0], b[0]),
             'a generator starts again for every fit', a[0])
    # no two factors are alike
    for f in range(1, c['k']):
        must(not (one[0][f] == one[0][0] and
                  np.array_equal(one[1][:, f], one[1][:, 0])),
             'two equal factors', one[0])
    rec.nt(len(c['rows']) > 2)
