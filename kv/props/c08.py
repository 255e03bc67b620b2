"""C08: factorization models optimize the documented objective exactly"""
from hypothesis import strategies as st
import numpy as np
from ..core import sub, must, close
from .. import models as m


@st.composite
def cases(draw, name):
    c = draw(m.for_model(name))
    c['C'] = draw(st.one_of(
        st.sampled_from([0, 1, 0.01]),
        st.integers(0, 400).map(lambda i: i / 32.0)))
    c['k'] = draw(m.factors(4))
    c['late'] = draw(st.sampled_from(m.LATE))
    c['plain'] = draw(st.booleans())
    c['seed'] = draw(st.integers(0, 2 ** 31 - 1))
    c['scale'] = draw(st.sampled_from([0.3, 1.0, 1.0, 2.5]))
    c['points'] = draw(st.integers(1, 3))
    return c


def run(name, case, rec):
    data = m.container(case, plain=(name == 'ilpmf' and case['plain']))
    C, k = case['C'], case['k']

    def make(probe):
        return m.late_maker(case['late'], name, C, k, case['seed'],
                            method=probe)
    pos, n = m.layout_of(make, data, case)
    nu, ni = m.sizes_of(case, data)
    must(pos[1].shape == (nu,) and pos[2].shape == (ni,) and
         pos[3].shape == (nu, k) and pos[4].shape == (ni, k),
         'shapes of learned parameters', [a.shape for a in pos])
    terms = m.terms_of(name, case, data)
    rng = np.random.RandomState(case['seed'])

    def body(f, g, x0, options):
        must(x0.shape == (n,), 'shape of the start of the search')
        pts = [x0] + [rng.normal(0.0, case['scale'], n)
                      for _ in range(case['points'])]
        # a parameter vector with zeros
        pts.append(np.where(rng.uniform(size=n) < 0.5, 0.0, pts[-1]))
        for x in pts:
            par = m.unpack(x, pos)
            if name != 'pmf':
                big = max(abs(m.linear(par, u, i)) for u, i, _ in terms)
                if big > 15.0:
                    x = x * (15.0 / big) ** 0.5 if big < 200 else x * 0.05
                    par = m.unpack(x, pos)
                    if max(abs(m.linear(par, u, i))
                           for u, i, _ in terms) > 25.0:
                        continue
            want, tol = m.objective(name, terms, par, C)
            close(float(f(x)), want, 'objective', rtol=1e-9, atol=tol)
            gw = m.pack(m.gradient(name, terms, par, C), pos, n)
            gg = np.asarray(g(x))
            close(gg, gw, 'gradient', rtol=1e-8,
                  atol=1e-10 * (1 + float(np.max(np.abs(gw)))))
            # evaluations do not depend on each other
            close(float(f(x)), want, 'objective again', rtol=1e-9, atol=tol)
        return m.result(x0)
    probe = m.Probe(body)
    m.fit(make(probe), data, case)
    must(probe.calls == 1, 'the optimizer is called once', probe.calls)
    rec.nt(len(case['rows']) > 2 and k > 1 and nu > 1 and ni > 1)
    pairs = m.pairs_of(case, data)
    rec.label('repeated events', len(set(pairs)) < len(pairs))
    rec.label('objects without events',
              len(set(u for u, _ in pairs)) < nu or
              len(set(i for _, i in pairs)) < ni)
    rec.label('k > 1', k > 1)
    rec.label('special columns', case['event_index'] is not None or
              case['event_otypes'] is not None)
    rec.label('C = 0', C == 0)
    rec.label('k > 4', k > 4)
    rec.label('settings changed after construction',
              case['late'] is not None)


RULE = 'more than one user, item and factor, and more than two events'


@sub('C08', 'pmf', cases('pmf'), 350, 3500, RULE)
def pmf(case, rec):
    run('pmf', case, rec)


@sub('C08', 'logistic', cases('lpmf'), 350, 3500, RULE)
def logistic(case, rec):
    run('lpmf', case, rec)


@sub('C08', 'implicit', cases('ilpmf'), 350, 3500, RULE)
def implicit(case, rec):
    run('ilpmf', case, rec)


# -- many users and items: the same with numpy ----------------------------------------

@st.composite
def large_cases(draw):
    name = draw(st.sampled_from(['pmf', 'lpmf', 'ilpmf']))
    c = draw(m.large(name))
    c['name'] = name
    c['scale'] = draw(st.sampled_from([0.1, 0.5, 1.0]))
    return c


@sub('C08', 'large', large_cases(), 40, 400,
     'more users or items than 8 bits count')
def large(case, rec):
    c, name = case, case['name']
    data, raw, sc = m.large_container(c)

    def make(probe):
        return m.quiet_maker(name, c['C'], c['k'], c['seed'], method=probe)
    pos, n = m.layout_of(make, data, c)
    terms = m.terms_all(name, data, sc)
    rng = np.random.RandomState(c['seed'])

    def body(f, g, x0, options):
        for x in (x0, rng.normal(0, c['scale'], n)):
            par = m.unpack(x, pos)
            close(float(f(x)), m.objective_all(name, terms, par, c['C']),
                  'objective of many events', rtol=1e-8)
            gw = m.pack(m.gradient_all(name, terms, par, c['C']), pos, n)
            close(g(x), gw, 'gradient for many events', rtol=1e-7,
                  atol=1e-9 * (1 + float(np.max(np.abs(gw)))))
        return m.result(x0)
    m.fit(make(m.Probe(body)), data, c)
    rec.nt(max(c['n']) > 256)
    rec.label(name)
