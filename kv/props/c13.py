"""C13: pLSA learns by exact EM and ends with proper distributions"""
import math
from hypothesis import strategies as st
import numpy as np
from ..core import sub, must, eq, close
from .. import models as m


def settings(draw, c):
    c['k'] = draw(st.integers(1, 5))
    c['alpha'] = draw(st.one_of(
        st.sampled_from([1.0, 0.01, 1, 0.1, 100.0]),
        st.integers(1, 64).map(lambda i: i / 8.0)))
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['mode'] = draw(st.booleans())


def train(c, data, **kw):
    return m.fit(m.worn(m.MultinomialPLSA(
        k=c['k'], alpha=c['alpha'], random_state=c['seed'],
        use_expectation=m.flag(not c['mode'], c['seed'] // 7), **kw), c),
        data, c)


def params(c, data, rec):
    """(p(z), p(x|z), p(y|z), p(r|z)) as nested lists, after checks"""
    nu, ni = m.sizes_of(c, data)
    k, nl = c['k'], c['domain']['n']
    pz = np.asarray(rec.pZ_)
    px, py = np.asarray(rec.pXgZ_)[:-1], np.asarray(rec.pYgZ_)[:-1]
    pr = np.asarray(rec.pRgZ_)
    must(pz.shape == (k,), 'latent distribution', pz.shape)
    must(px.shape == (nu, k), 'distributions of users', px.shape, (nu, k))
    must(py.shape == (ni, k), 'distributions of items', py.shape, (ni, k))
    must(pr.shape == (nl, k), 'distributions of scores', pr.shape, (nl, k))
    for p, what in ((pz, 'latent factors'), (px, 'users'), (py, 'items'),
                    (pr, 'score levels')):
        must(bool(np.all(p > 0)) and bool(np.all(p <= 1 + 1e-12)),
             'probabilities of %s are positive' % what, p)
        close(p.sum(axis=0), np.ones(p.shape[1:]),
              'probabilities of %s sum to one' % what, rtol=1e-9)
    return pz.tolist(), px.tolist(), py.tolist(), pr.tolist()


def joint(th, u, i, r):
    pz, px, py, pr = th
    return [pz[z] * px[u][z] * py[i][z] * pr[r][z] for z in range(len(pz))]


def nll(th, ev):
    return -math.fsum(math.log(math.fsum(joint(th, u, i, r)))
                      for u, i, r in ev) / len(ev)


def em_step(th, ev, alpha):
    pz, px, py, pr = th
    k = len(pz)
    cz = [alpha] * k
    cx = [[alpha] * k for _ in px]
    cy = [[alpha] * k for _ in py]
    cr = [[alpha] * k for _ in pr]
    for u, i, r in ev:
        q = joint(th, u, i, r)
        s = math.fsum(q)
        for z in range(k):
            w = q[z] / s
            cz[z] += w
            cx[u][z] += w
            cy[i][z] += w
            cr[r][z] += w

    def norm(t):
        tot = [math.fsum(row[z] for row in t) for z in range(k)]
        return [[row[z] / tot[z] for z in range(k)] for row in t]
    s = math.fsum(cz)
    return [v / s for v in cz], norm(cx), norm(cy), norm(cr)


def objective(th, ev, alpha):
    """log likelihood plus the log of the smoothing prior"""
    prior = math.fsum(math.log(v) for t in th
                      for v in np.asarray(t).ravel())
    return -nll(th, ev) * len(ev) + alpha * prior


def same_params(a, b, what, rtol=1e-8):
    for x, y, n in zip(a, b, ('p(z)', 'p(x|z)', 'p(y|z)', 'p(r|z)')):
        close(x, y, '%s: %s' % (what, n), rtol=rtol, atol=1e-12)


def consistent(th, ev, alpha):
    """expected counts of a maximization step add up to the observed ones"""
    pz, px, py, pr = th
    k, n = len(pz), len(ev)
    nz = [p * (n + k * alpha) - alpha for p in pz]
    tol = 1e-9 * (n + alpha * (len(px) + len(py) + len(pr) + k))
    must(min(nz) >= -tol, 'expected counts are not negative', nz)
    for t, col, what in ((px, 0, 'user'), (py, 1, 'item'), (pr, 2, 'score')):
        cnt = [[t[o][z] * (nz[z] + len(t) * alpha) - alpha for z in range(k)]
               for o in range(len(t))]
        must(min(min(row) for row in cnt) >= -tol,
             'expected counts of each %s are not negative' % what, cnt)
        close([math.fsum(row) for row in cnt],
              [float(sum(1 for e in ev if e[col] == o))
               for o in range(len(t))],
              'expected counts of each %s sum to the observed ones' % what,
              rtol=1e-9, atol=tol)


def events_of(c, data):
    return [(u, i, r) for (u, i), r in zip(m.pairs_of(c, data), c['scores'])]


@st.composite
def step_cases(draw):
    c = draw(m.datasets())
    settings(draw, c)
    c['at'] = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 7, 15]))
    c['steps'] = draw(st.integers(1, 3))
    return c


@sub('C13', 'em', step_cases(), 1000, 8000,
     'more than one latent factor, user and item, and three events')
def em(case, rec):
    c = case
    data = m.container(c)
    ev = events_of(c, data)
    nu, ni = m.sizes_of(c, data)
    th, f = None, None
    first = None
    for it in range(c['at'], c['at'] + c['steps'] + 1):
        r = train(c, data, maxiter=it, tol=0)
        new = params(c, data, r)
        res = r.fit_results_
        loss = nll(new, ev)
        close(float(res['final_loss']), loss,
              'final loss is the mean negative log likelihood', rtol=1e-9,
              atol=1e-11)
        if it == 0:
            close(float(res['initial_loss']), loss,
                  'initial loss is that of the model without iterations',
                  rtol=1e-9, atol=1e-11)
        if first is None:
            first = res['initial_loss']
        must(res['initial_loss'] == first,
             'the initial loss does not depend on iterations', first, res)
        # the fit stops at the limit
        for key, want in (
                ('n_iterations', it), ('status', 2), ('success', False),
                ('n_users', nu), ('n_items', ni), ('n_events', len(ev)),
                ('n_parameters', c['k'] * (1 + nu + ni + c['domain']['n'])),
                ('message', 'Maximum number of iterations has been '
                            'exceeded.')):
            must(res[key] == want, 'reported ' + key, res[key], want)
        consistent(new, ev, c['alpha'])
        if th is not None:
            same_params(new, em_step(th, ev, c['alpha']), 'one EM step')
        g = objective(new, ev, c['alpha'])
        if f is not None:
            must(g >= f - 1e-9 * (abs(f) + 1), 'likelihood plus prior never '
                 'gets worse', f, g)
        th, f = new, g
    if c['k'] == 1:
        n = len(ev)
        for t, col in ((th[1], 0), (th[2], 1), (th[3], 2)):
            close([row[0] for row in t],
                  [(sum(1 for e in ev if e[col] == o) + c['alpha']) /
                   (n + c['alpha'] * len(t)) for o in range(len(t))],
                  'a single factor has smoothed frequencies', rtol=1e-9)
    rec.nt(c['k'] > 1 and nu > 1 and ni > 1 and len(ev) > 2)
    rec.label('objects without events',
              len(set(e[0] for e in ev)) < nu or
              len(set(e[1] for e in ev)) < ni)
    rec.label('more factors than score levels', c['k'] > c['domain']['n'])
    rec.label('from the start', c['at'] == 0)


# -- when fitting stops --------------------------------------------------------

@st.composite
def stop_cases(draw):
    c = draw(m.datasets())
    settings(draw, c)
    c['maxiter'] = draw(st.one_of(
        st.none(), st.integers(0, 3), st.integers(0, 60)))
    c['tol'] = draw(st.sampled_from(
        [None, 0, 1e-12, 1e-8, 1e-6, 1e-4, 1e-2, 1e9]))
    return c


@sub('C13', 'stop', stop_cases(), 600, 5000,
     'more than one iteration, with more than one latent factor')
def stop(case, rec):
    c = case
    data = m.container(c)
    ev = events_of(c, data)
    kw = {k: c[k] for k in ('maxiter', 'tol') if c[k] is not None}
    limit = 100 if c['maxiter'] is None else c['maxiter']
    tol = 1e-10 if c['tol'] is None else c['tol']
    r = train(c, data, **kw)
    res = r.fit_results_
    th = params(c, data, r)
    for key, want in (('maxiter', limit), ('tol', tol)):
        must(res['optimizer_kwargs'][key] == want, 'reported ' + key, res)
    n = res['n_iterations']
    must(0 <= n <= limit, 'number of iterations', n, limit)
    # the same number of steps by definition
    cur = params(c, data, train(c, data, maxiter=0, tol=0))
    pre = nll(cur, ev)
    close(float(res['initial_loss']), pre, 'initial loss', rtol=1e-9,
          atol=1e-11)
    rel = None
    for it in range(1, n + 1):
        cur = em_step(cur, ev, c['alpha'])
        loss = nll(cur, ev)
        rel = abs((loss - pre) / loss)
        pre = loss
        if it < n:
            must(rel > tol * (1 - 1e-6) - 1e-13,
                 'iterations go on until the tolerance is reached', it, rel)
    same_params(th, cur, 'EM from the start', rtol=1e-6)
    close(float(res['final_loss']), pre, 'final loss', rtol=1e-8, atol=1e-11)
    must(res['status'] in (0, 2), 'status', res['status'])
    must(res['success'] == (res['status'] == 0), 'success', res)
    if res['status'] == 0:
        must(n >= 1 and rel < tol * (1 + 1e-6) + 1e-13,
             'a successful fit reached the tolerance', rel, tol)
        must('success' in res['message'].lower(), 'message', res['message'])
    else:
        must(n == limit, 'the limit of iterations was reached', n, limit)
        must(rel is None or rel > tol * (1 - 1e-6) - 1e-13,
             'the tolerance was not reached', rel, tol)
        must('iterations' in res['message'].lower(), 'message',
             res['message'])
    if tol == 1e9 and limit > 0:
        must(n == 1 and res['status'] == 0, 'a huge tolerance', res)
    rec.nt(n > 1 and c['k'] > 1)
    rec.label('tolerance reached', res['status'] == 0)
    rec.label('limit reached', res['status'] == 2)
    rec.label('defaults', not kw)


# -- many users and items: the same with numpy ----------------------------------------

@st.composite
def large_cases(draw):
    c = draw(m.large('plsa', sizes=(90, 129, 200, 257, 300, 1000)))
    settings(draw, c)
    c['alpha'] = draw(st.sampled_from([0.01, 0.5, 1.0, 2.0]))
    c['k'] = draw(st.sampled_from([1, 2, 3, 8, 20]))
    c['at'] = draw(st.sampled_from([0, 1, 5]))
    c['domain'] = {'a': 0, 's': 1, 'q': 1, 'n': c['levels']}
    return c


@sub('C13', 'large', large_cases(), 40, 400,
     'more users or items than 8 bits count, some latent factors')
def large(case, rec):
    c = case
    data, raw, sc = m.large_container(c)
    u, i, r = data.event[:, 0], data.event[:, 1], np.asarray(sc)
    a, b = [[np.array(t) for t in params(c, data, train(
        c, data, maxiter=n, tol=0))] for n in (c['at'], c['at'] + 1)]
    pz, px, py, pr = a
    w = pz * px[u] * py[i] * pr[r]
    w = w / w.sum(axis=1, keepdims=True)
    want = [w.sum(axis=0) + c['alpha']]
    for ids, t in ((u, px), (i, py), (r, pr)):
        cnt = np.zeros(t.shape)
        np.add.at(cnt, ids, w)
        want.append(cnt + c['alpha'])
    want = [t / t.sum(axis=0) for t in want]
    same_params(b, want, 'a step of learning from many events', rtol=1e-7)
    rec.nt(max(c['n']) > 256 and c['k'] > 1)
