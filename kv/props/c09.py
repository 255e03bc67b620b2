"""C09: fitting results describe the model that was learned"""
from hypothesis import strategies as st
import numpy as np
from scipy.optimize import Bounds, minimize
from ..core import sub, must, eq, close
from .. import models as m


@st.composite
def cases(draw, name):
    c = draw(m.for_model(name))
    c['C'] = draw(st.sampled_from([0.01, 0.1, 0.5, 1, 2.5, 10.0]))
    c['k'] = draw(st.integers(1, 3))
    c['plain'] = draw(st.booleans())
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['method'] = draw(st.sampled_from(
        [None, 'CG', 'BFGS', 'L-BFGS-B', 'TNC']))
    c['maxiter'] = draw(st.sampled_from([None, None, 0, 1, 2, 5, 20]))
    c['maxiter_in_options'] = draw(st.booleans())
    c['tol'] = draw(st.sampled_from([None, 1e-8, 1e-6, 1e-3, 1e-1, 1e9]))
    c['callback'] = draw(st.booleans())
    # half a width of the box of the parameters, for the methods that know it
    c['box'] = draw(st.sampled_from([None, None, 0.5, 2.0, 10.0]))
    c['more'] = draw(st.sampled_from([None, None, 0, 1]))
    # the recommender may have been fitted to other data before
    c['prior'] = [draw(m.for_model(name)) for _ in range(
        draw(st.sampled_from([0, 0, 1, 1, 2])))]
    return c


# these may get worse, or report less
OTHERS = ['Nelder-Mead', 'Powell', 'COBYLA', 'SLSQP', 'Newton-CG',
          'trust-constr']


@st.composite
def other_cases(draw):
    name = draw(st.sampled_from(['pmf', 'lpmf', 'ilpmf']))
    c = draw(cases(name))
    c['name'] = name
    c['k'] = draw(st.integers(1, 2))
    c['method'] = draw(st.sampled_from(OTHERS))
    c['maxiter'] = draw(st.sampled_from([1, 2, 5, 20]))
    if c['method'] == 'Powell':
        c['maxiter'] = min(c['maxiter'], 2)
    c['prior'] = c['prior'][:1]
    return c


def check_counts(res, rec, c, data):
    nu, ni = m.sizes_of(c, data)
    k = c['k']
    must(res['n_users'] == nu, 'number of users', res['n_users'], nu)
    must(res['n_items'] == ni, 'number of items', res['n_items'], ni)
    must(res['n_events'] == len(c['rows']), 'number of events',
         res['n_events'])
    must(res['n_parameters'] == 1 + nu + ni + (nu + ni) * k,
         'number of parameters', res['n_parameters'])
    par = m.params_of(rec)
    must(par[1].shape == (nu,) and par[2].shape == (ni,) and
         par[3].shape == (nu, k) and par[4].shape == (ni, k),
         'shapes of learned parameters', [np.shape(a) for a in par])
    return par


BOXED = ('L-BFGS-B', 'TNC', 'Nelder-Mead', 'Powell', 'SLSQP',
         'trust-constr')
MORE = {'CG': [('norm', 2), ('gtol', 1e-2)],
        'BFGS': [('norm', 1), ('gtol', 1e-2)],
        'L-BFGS-B': [('maxcor', 2), ('maxfun', 5)],
        'TNC': [('eta', 0.5), ('maxfun', 9)],
        'Newton-CG': [('xtol', 1e-2), ('xtol', 1e-1)]}


def more_kwargs(c, calls, n):
    """other keywords of scipy's minimize, and options of the method"""
    kw, opt = {}, {}
    if c.get('callback') and c['method'] != 'TNC':
        kw['callback'] = lambda x, *a: calls.append(np.array(x)) and None
    if c.get('box') and c['method'] in BOXED and not c['prior']:
        kw['bounds'] = [(-c['box'], c['box'])] * n
    if c.get('more') is not None and c['method'] in MORE:
        k, v = MORE[c['method']][c['more']]
        opt[k] = v
    return kw, opt


def kwargs_of(c, calls, n):
    kw, opt = more_kwargs(c, calls, n)
    if c['method'] is not None:
        kw['method'] = c['method']
    if c['tol'] is not None:
        kw['tol'] = c['tol']
    if c['maxiter'] is not None and not (
            c['method'] == 'TNC' and c['maxiter'] == 0):
        if c['maxiter_in_options']:
            opt['maxiter'] = c['maxiter']
        else:
            kw['maxiter'] = c['maxiter']
    if opt:
        kw['options'] = opt
    return kw


def run(name, case, rec):
    c = case
    data = m.container(c, plain=(name == 'ilpmf' and c['plain']))
    calls = []
    nu, ni = m.sizes_of(c, data)
    kw = kwargs_of(c, calls, 1 + (nu + ni) * (1 + c['k']))
    model = m.quiet_maker(name, c['C'], c['k'], c['seed'], **kw)
    for b in c['prior']:
        m.fit(model, m.container(b), b)
    del calls[:]
    m.fit(model, data, c)
    rec.label('fitted before', len(c['prior']) > 0)
    res = model.fit_results_
    par = check_counts(res, model, c, data)
    terms = m.terms_of(name, c, data)
    reported(res, kw)

    # losses
    want, tol = m.objective(name, terms, par, c['C'])
    close(float(res['final_loss']), want,
          'the final loss is the objective at the learned parameters',
          rtol=1e-8, atol=tol)
    if c['method'] not in OTHERS and 'bounds' not in kw:
        must(res['final_loss'] <= res['initial_loss'] * (1 + 1e-9) + tol,
             'the final loss is not larger than the initial one',
             res['initial_loss'], res['final_loss'])

    # the same optimization done here, from the same start
    method = res['optimizer_method']
    must(method == c['method'] if c['method'] else isinstance(method, str),
         'method of optimization', method)
    direct = {}
    maxiter = c['maxiter'] if (
        'maxiter' in kw or 'maxiter' in kw.get('options', {})) else None
    again = []

    def body(f, g, x0, options):
        direct['f0'] = float(f(x0))
        more, opt = more_kwargs(c, again, len(x0))
        opt['disp'] = False
        if maxiter is not None:
            opt['maxiter'] = maxiter
        r = minimize(f, x0, jac=g, method=method, tol=c['tol'], options=opt,
                     **more)
        direct['r'] = r
        return m.result(r.x, fun=r.fun)
    probe = m.Probe(body)
    twin = m.fit(m.quiet_maker(name, c['C'], c['k'], c['seed'],
                               method=probe), data, c)
    r = direct['r']
    close(float(res['initial_loss']), direct['f0'],
          'the initial loss is the objective at the start', rtol=1e-9)
    for a, b, what in zip(par, m.params_of(twin),
                          'mu_ bu_ bi_ p_ q_'.split()):
        close(a, b, 'parameters found with the given options: ' + what,
              rtol=1e-6, atol=1e-9)
    for key, v in (('status', r.status), ('success', r.success),
                   ('message', r.message), ('n_iterations', r.get('nit')),
                   ('func_calls', r.nfev)):
        must(res[key] == v, 'reported ' + key, res[key], v)
    if hasattr(r, 'njev'):
        must(res['grad_calls'] == r.njev, 'reported grad_calls',
             res['grad_calls'], r.njev)
    must(len(calls) == len(again), 'calls of the callback', len(calls),
         len(again))
    # the other methods count iterations differently
    counting = method in ('CG', 'BFGS')
    if maxiter is not None and counting:
        must(res['n_iterations'] <= maxiter, 'limit of iterations',
             res['n_iterations'])
    if maxiter == 0 and counting:
        close(float(res['initial_loss']), want,
              'without iterations the initial loss is that of the model',
              rtol=1e-8, atol=tol)
    stationary = (method in ('CG', 'BFGS') and res['success'] and
                  c['tol'] is not None and c['tol'] <= 1e-3 and
                  c.get('more') is None)
    if stationary:
        g = m.gradient(name, terms, par, c['C'])
        big = max(float(np.max(np.abs(x))) for x in g)
        must(big <= c['tol'] * 1.01 + 1e-7,
             'the learned parameters are a stationary point', big, c['tol'])
    rec.nt(res['func_calls'] > 2 and len(c['rows']) > 2 and
           res['n_iterations'] != 1)
    rec.label('stationary', bool(stationary))
    rec.label('stopped at the limit', maxiter is not None and
              res['n_iterations'] == maxiter)
    rec.label('not successful', not res['success'])
    rec.label('callback', 'callback' in kw)
    rec.label('bounds', 'bounds' in kw)
    rec.label('method:%s' % c['method'])


RULE = 'more than one iteration on more than two events'


@sub('C09', 'methods', other_cases(), 120, 1200, RULE)
def methods(case, rec):
    """every other method of scipy that needs no second derivatives"""
    run(case['name'], case, rec)


@sub('C09', 'pmf', cases('pmf'), 130, 1300, RULE)
def pmf(case, rec):
    run('pmf', case, rec)


@sub('C09', 'logistic', cases('lpmf'), 130, 1300, RULE)
def logistic(case, rec):
    run('lpmf', case, rec)


@sub('C09', 'implicit', cases('ilpmf'), 80, 800, RULE)
def implicit(case, rec):
    run('ilpmf', case, rec)


def reported(res, kw):
    """the results tell the options the user gave"""
    got = dict(res['optimizer_kwargs'])
    got.update(got.get('options', {}))
    want = {k: v for k, v in kw.items() if k not in ('method', 'options')}
    want.update({k: v for k, v in kw.get('options', {}).items()
                 if k not in want})
    for k, v in want.items():
        must(k in got and (got[k] is v or got[k] == v),
             'reported option ' + k, got)


# -- a recording optimizer -----------------------------------------------------

@st.composite
def record_cases(draw):
    name = draw(st.sampled_from(['pmf', 'lpmf', 'ilpmf']))
    c = draw(m.for_model(name))
    c['name'] = name
    c['C'] = draw(st.sampled_from([0.1, 1, 3.0]))
    c['k'] = draw(st.integers(1, 3))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['status'] = draw(st.integers(0, 5))
    c['success'] = draw(st.booleans())
    c['message'] = draw(st.text(alphabet='abc .', max_size=8))
    c['counts'] = draw(st.lists(st.integers(0, 1000), min_size=3,
                                max_size=3))
    c['options'] = draw(st.dictionaries(
        st.sampled_from(['gtol', 'norm', 'eps', 'foo']),
        st.integers(1, 99), max_size=3))
    c['maxiter'] = draw(st.one_of(st.none(), st.integers(0, 99)))
    c['disp'] = draw(st.sampled_from([None, None, True, False]))
    c['keywords'] = draw(st.lists(
        st.sampled_from(['tol', 'callback', 'bounds', 'hess', 'hessp',
                         'constraints']), unique=True, max_size=3))
    return c


KEYWORDS = {'tol': 0.25, 'callback': lambda x: None,
            'bounds': Bounds(-3, 3), 'hess': lambda *a: 1,
            'hessp': lambda *a: 2, 'constraints': ({'type': 'eq'},)}


@sub('C09', 'recorded', record_cases(), 250, 2500,
     'options are given or the optimizer fails')
def recorded(case, rec):
    c = case
    data = m.container(c)
    seen = {}
    rng = np.random.RandomState(c['seed'])

    def body(f, g, x0, options):
        seen.update(options)
        x = rng.normal(0, 0.5, len(x0))
        seen['x'] = x
        return m.result(
            x, fun=f(x), success=c['success'], status=c['status'],
            message=c['message'], nit=c['counts'][0], nfev=c['counts'][1],
            njev=c['counts'][2])
    kw = {'method': m.Probe(body)}
    opt = dict(c['options'])
    if c['disp'] is not None:
        opt['disp'] = c['disp']
    if opt:
        kw['options'] = opt
    if c['maxiter'] is not None:
        kw['maxiter'] = c['maxiter']
    for k in c.get('keywords', ()):
        kw[k] = KEYWORDS[k]
    model = m.fit(m.quiet_maker(c['name'], c['C'], c['k'], c['seed'], **kw),
                  data, c)
    res = model.fit_results_
    par = check_counts(res, model, c, data)
    reported(res, kw)
    for k, v in c['options'].items():
        must(seen.get(k) == v, 'option %s reaches the optimizer' % k, seen)
    for k in c.get('keywords', ()):
        must(seen.get(k) is KEYWORDS[k] or seen.get(k) == KEYWORDS[k],
             'keyword %s reaches the optimizer' % k, seen)
    must(bool(seen.get('disp')) == bool(c['disp']),
         'no messages are displayed unless asked for', seen.get('disp'))
    must(seen.get('maxiter') == c['maxiter'],
         'maximum number of iterations reaches the optimizer', seen)
    for k, v in (('status', c['status']), ('success', c['success']),
                 ('message', c['message']),
                 ('n_iterations', c['counts'][0]),
                 ('func_calls', c['counts'][1]),
                 ('grad_calls', c['counts'][2])):
        must(res[k] == v, 'reported ' + k, res[k], v)
    flat = np.concatenate([np.ravel(a) for a in par])
    eq(np.sort(flat), np.sort(seen['x']),
       'the learned parameters are those the optimizer returned')
    want, tol = m.objective(c['name'], m.terms_of(c['name'], c, data), par,
                            c['C'])
    close(float(res['final_loss']), want, 'final loss', rtol=1e-8, atol=tol)
    rec.nt(bool(c['options']) or not c['success'])
    rec.label('failed optimizer', not c['success'])


# -- many users and items: the same with numpy ----------------------------------------

@st.composite
def large_cases(draw):
    name = draw(st.sampled_from(['pmf', 'lpmf', 'ilpmf']))
    c = draw(m.large(name))
    c['name'] = name
    c['method'] = draw(st.sampled_from([None, 'CG', 'L-BFGS-B']))
    c['maxiter'] = draw(st.sampled_from([0, 1, 2]))
    return c


@sub('C09', 'large', large_cases(), 20, 200,
     'more users or items than 8 bits count')
def large(case, rec):
    c, name = case, case['name']
    data, raw, sc = m.large_container(c)
    kw = {'maxiter': c['maxiter']}
    if c['method']:
        kw['method'] = c['method']
    model = m.quiet_maker(name, c['C'], c['k'], c['seed'], **kw)
    m.fit(model, data, c)
    res = model.fit_results_
    nu, ni = [len(e) for e in data.eid]
    for key, v in (('n_users', nu), ('n_items', ni), ('n_events', len(raw)),
                   ('n_parameters', 1 + (nu + ni) * (1 + c['k']))):
        must(res[key] == v, 'reported ' + key, res[key], v)
    want = m.objective_all(name, m.terms_all(name, data, sc),
                           m.params_of(model), c['C'])
    close(float(res['final_loss']), want, 'the final loss is the objective '
          'at the learned parameters of many objects', rtol=1e-8)
    must(res['final_loss'] <= res['initial_loss'] * (1 + 1e-9),
         'the final loss is not larger than the initial one',
         res['initial_loss'], res['final_loss'])
    if c['maxiter'] == 0 and c['method'] in (None, 'CG'):
        close(float(res['initial_loss']), want,
              'without iterations the initial loss is that of the model',
              rtol=1e-8)
    rec.nt(max(c['n']) > 256)
    rec.label(name)
