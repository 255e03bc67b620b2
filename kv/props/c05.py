"""C05: scores live on the grid given by their domain"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventWithScoreData
from kamrecsys.metrics import generate_score_bins
from ..core import sub, must, eq, close
from .. import gen


# few levels far apart: narrow integers hold them, but not their distances
wide_domains = st.sampled_from([
    {'a': -100, 's': 100, 'q': 1, 'n': 3}, {'a': -90, 's': 60, 'q': 1, 'n': 4},
    {'a': 0, 's': 50, 'q': 1, 'n': 6}, {'a': -128, 's': 255, 'q': 1, 'n': 2},
    {'a': -20000, 's': 20000, 'q': 1, 'n': 3},
    {'a': 100, 's': 100, 'q': 1, 'n': 2}, {'a': -50, 's': 25, 'q': 1, 'n': 5},
])


@st.composite
def cases(draw):
    d = draw(st.one_of(gen.domains(), wide_domains))
    n = draw(st.integers(1, 20))
    lev = draw(st.lists(st.integers(0, d['n'] - 1), min_size=n, max_size=n))
    return {
        'domain': d, 'levels': lev,
        'triple': draw(st.sampled_from(['tuple', 'list', 'array', 'tight'])),
        'sctype': draw(gen.score_types),
        'free': draw(st.lists(st.tuples(
            st.integers(-2, d['n'] + 1), st.integers(-49, 49)).map(list),
            max_size=8)),
        'thresh': draw(st.one_of(
            st.none(), st.tuples(st.integers(-1, d['n']),
                                 st.sampled_from([-25, 0, 25])).map(list),
            # numbers for themselves, zero above all
            st.sampled_from([0, 0, 0, 0.0, 1, -1, 2, 0.5]))),
    }


def container(case, domain):
    data = EventWithScoreData()
    lev = gen.levels_of(case['domain'])
    sc = gen.retype_scores(np.array([lev[i] for i in case['levels']]),
                           case.get('sctype'))
    ev = np.array([[i % 3, i % 2] for i in range(len(sc))])
    data.set_event(ev, sc, score_domain=domain)
    forget(domain)
    return data, sc


def forget(domain):
    """the caller uses its array for something else"""
    if isinstance(domain, (np.ndarray, list)):
        domain[:] = np.array([-7, -6, 1]) if isinstance(
            domain, np.ndarray) else [-7, -6, 1]


def domain_arg(case):
    t = gen.triple_of(case['domain'])
    if all(float(x).is_integer() for x in t):
        t = tuple(int(x) for x in t)
    if case['triple'] == 'tight':
        return gen.retype_scores(np.array(t), 'tight')
    return {'tuple': tuple, 'list': list, 'array': np.array}[case['triple']](t)


def check_grid(data, d, what=''):
    lev = gen.levels_of(d)
    q = float(d['q'])
    must(data.n_score_levels == d['n'], what + 'number of score levels',
         data.n_score_levels, d['n'])
    close(data.get_score_levels(), lev, what + 'score levels', atol=1e-9)
    want = [(2 * d['a'] + d['s'] * (2 * i + 1)) / (2 * q)
            for i in range(d['n'] - 1)]
    for bins in (data.generate_score_bins(),
                 generate_score_bins(data.score_domain)):
        bins = np.asarray(bins)
        must(bins.shape == (d['n'] + 1,), what + 'number of bins', bins)
        must(bins[0] == -np.inf and bins[-1] == np.inf,
             what + 'bins cover all numbers', bins)
        close(bins[1:-1], want, what + 'inner boundaries of bins', atol=1e-9)


@sub('C05', 'grid', cases(), 900, 9000,
     'at least three levels or a stride that is not exact in binary')
def grid(case, rec):
    d = case['domain']
    data, sc = container(case, domain_arg(case))
    eq(data.score, sc, 'scores')
    close(data.score_domain, gen.triple_of(d), 'score domain')
    check_grid(data, d)
    lev = np.array(gen.levels_of(d))
    # every level is its own digit
    dig = data.digitize_score()
    eq(dig, case['levels'], 'digitized scores')
    must(np.asarray(dig).dtype.kind in 'iu', 'digits are integers')
    eq(data.digitize_score(lev), np.arange(d['n']), 'digits of all levels')
    close(data.get_score_levels()[data.digitize_score()], sc,
          'levels of digits are the scores', atol=1e-9)
    for i in sorted(set(case['levels'])):
        for n in (1, len(sc), 3):
            eq(data.digitize_score(np.repeat(lev[i], n)), [i] * n,
               'digits of equal scores')
    must(np.shape(data.digitize_score(np.zeros(0))) == (0,),
         'digits of no scores')
    # matrices, and arrays laid out in other ways
    ar = np.arange(d['n'])
    eq(data.digitize_score(np.stack([lev, lev[::-1], lev])),
       [ar, ar[::-1], ar], 'digits of a matrix of scores')
    eq(data.digitize_score(np.repeat(lev, 2)[::2]), ar, 'strided scores')
    eq(data.digitize_score(lev[:, np.newaxis])[:, 0], ar,
       'digits of a column of scores')
    eq(data.digitize_score(lev.tolist()), ar, 'digits of a list of scores')
    # other numbers fall to the nearest level
    if case['free']:
        stride = d['s'] / float(d['q'])
        x = np.array([(d['a'] + d['s'] * i) / float(d['q']) +
                      stride * p / 100.0 for i, p in case['free']])
        want = [min(max(i, 0), d['n'] - 1) for i, p in case['free']]
        eq(data.digitize_score(x), want, 'digits of numbers between levels')
        far = 1e3 * (d['n'] + 10) * stride + abs(lev).max()
        eq(data.digitize_score(np.array([-far, far])),
           [0, d['n'] - 1], 'digits of numbers far out of the domain')
        rec.label('numbers off the grid')
    eq(data.score, sc, 'scores are not changed by digitizing')
    rec.nt(d['n'] > 2 or not gen.domain_is_exact(d))
    rec.label('inexact stride', not gen.domain_is_exact(d))
    rec.label('two levels', d['n'] == 2)
    rec.label('min > 0', d['a'] > 0)
    rec.label('min < 0', d['a'] < 0)


@sub('C05', 'binarize', cases(), 700, 7000,
     'both binary scores occur')
def binarize(case, rec):
    d = case['domain']
    data, sc = container(case, domain_arg(case))
    if case['thresh'] is None:
        data.binarize_score()
        # compare 2 * i with n - 1 on the exact grid
        want = [0 if 2 * i <= d['n'] - 1 else 1 for i in case['levels']]
        at = [2 * i == d['n'] - 1 for i in case['levels']]
    elif not isinstance(case['thresh'], list):
        th = case['thresh']
        data.binarize_score(th)
        want = [0 if s <= th else 1 for s in sc]
        at = [False] * len(sc)
        rec.label('threshold zero', th == 0)
        rec.label('threshold zero, not the center',
                  th == 0 and sum(gen.triple_of(d)[:2]) != 0)
    else:
        i0, off = case['thresh']
        th = (d['a'] + d['s'] * i0) / float(d['q']) + \
            off / 100.0 * d['s'] / d['q']
        data.binarize_score(th)
        want = [0 if s <= th else 1 for s in sc]
        at = [False] * len(sc)
        rec.label('threshold on a level', off == 0)
    if not gen.domain_is_exact(d):
        # the center of a grid that is not exact in binary is rounded
        got = np.asarray(data.score)
        must(got.shape == (len(sc),), 'shape of binary scores')
        want = [g if t else w for g, w, t in zip(got, want, at)]
    else:
        rec.label('score at the center', any(at))
    eq(data.score, want, 'binarized scores')
    must(set(np.asarray(data.score).tolist()) <= {0, 1}, 'scores are 0 or 1')
    eq(data.score_domain, [0, 1, 1], 'domain of binarized scores')
    must(data.n_score_levels == 2, 'number of binary levels')
    eq(data.digitize_score(), want, 'digits of binarized scores')
    close(data.get_score_levels(), [0, 1], 'binary levels')
    rec.nt(len(set(want)) == 2)
    rec.label('default threshold', case['thresh'] is None)
    # again: nothing changes
    data.binarize_score()
    eq(data.score, want, 'binarizing is idempotent')


@st.composite
def thresholds(draw):
    """integers, and thresholds around and between them"""
    lo = draw(st.integers(-9, 3))
    hi = draw(st.integers(lo + 1, 9))
    return {'lo': lo, 'hi': hi, 'scores': draw(st.lists(
        st.integers(lo, hi), min_size=1, max_size=12)),
        'quarters': draw(st.integers(4 * lo - 3, 4 * hi + 3)),
        'type': draw(st.sampled_from(['tight', 'i4', 'i8', 'f4', 'f8',
                                      'list'])),
        'as': draw(st.sampled_from(['float', 'f4', 'f8', 'int', '0d']))}


@sub('C05', 'threshold', thresholds(), 500, 5000,
     'a threshold that is not a whole number, and both binary scores')
def threshold(case, rec):
    c = case
    if c['type'] == 'tight':
        sc = gen.retype_scores(np.array(c['scores']), 'tight')
    elif c['type'] == 'list':
        sc = list(c['scores'])
    else:
        sc = np.array(c['scores'], dtype=c['type'])
    data = EventWithScoreData()
    data.set_event(np.array([[i % 3, i % 2] for i in range(len(sc))]), sc,
                   score_domain=(c['lo'], c['hi'], 1))
    th = c['quarters'] / 4.0
    if c['as'] in ('f4', 'f8'):
        th = np.dtype(c['as']).type(th)
    elif c['as'] == '0d':
        th = np.array(th)
    elif c['as'] == 'int' and c['quarters'] % 4 == 0:
        th = c['quarters'] // 4
    data.binarize_score(th)
    want = [int(4 * s > c['quarters']) for s in c['scores']]
    eq(data.score, want, 'binarized scores')
    eq(data.score_domain, [0, 1, 1], 'domain of binarized scores')
    rec.nt(c['quarters'] % 4 != 0 and len(set(want)) == 2)
    rec.label('negative fraction', c['quarters'] < 0 and c['quarters'] % 4)


@st.composite
def estimated(draw):
    d = draw(st.one_of(gen.domains(min_levels=2), wide_domains))
    # two neighbouring levels and any others
    i = draw(st.integers(0, d['n'] - 2))
    lev = [i, i + 1] + draw(st.lists(
        st.integers(0, d['n'] - 1), max_size=15))
    return {'domain': d, 'levels': draw(st.permutations(lev)),
            'sctype': draw(gen.score_types)}


@sub('C05', 'estimated', estimated(), 500, 5000,
     'the scores do not fill all levels between their extremes')
def estimate(case, rec):
    d = case['domain']
    lev = gen.levels_of(d)
    sc = np.array([lev[i] for i in case['levels']])
    sc = gen.retype_scores(sc, case['sctype'])
    data = EventWithScoreData()
    data.set_event(np.array([[i % 3, i % 2] for i in range(len(sc))]), sc)
    lo, hi = min(case['levels']), max(case['levels'])
    dd = {'a': d['a'] + d['s'] * lo, 's': d['s'], 'q': d['q'],
          'n': hi - lo + 1}
    close(data.score_domain, gen.triple_of(dd), 'estimated domain', atol=1e-9)
    check_grid(data, dd, 'estimated: ')
    eq(data.digitize_score(), [i - lo for i in case['levels']],
       'digits on the estimated domain')
    rec.nt(len(set(case['levels'])) < hi - lo + 1)
    rec.label('integers', sc.dtype.kind in 'iu')
    rec.label('bool', sc.dtype.kind == 'b')


# -- many scores and levels: cases are seeds and sizes --------------------------

@st.composite
def large_cases(draw):
    many = draw(st.booleans())
    return {'domain': {
        'a': draw(st.integers(-300, 300)), 's': draw(st.integers(1, 3)),
        'q': draw(st.sampled_from([1, 1, 2, 4, 10, 100])),
        'n': draw(st.sampled_from([128, 129, 256, 257, 300, 1000])) if many
        else draw(st.integers(2, 20))},
        'n': draw(st.sampled_from([1000, 20000])) if many else
        draw(st.sampled_from([33000, 70000])),
        'triple': draw(st.sampled_from(['tuple', 'list', 'array'])),
        'given': draw(st.booleans()),
        'seed': draw(st.integers(0, 10 ** 6))}


@sub('C05', 'large', large_cases(), 60, 600,
     'more levels or scores than 8 or 15 bits count')
def large(case, rec):
    c, d = case, case['domain']
    rng = np.random.RandomState(c['seed'])
    k = rng.randint(0, d['n'], c['n'])
    k[rng.permutation(c['n'])[:4]] = [0, 1, d['n'] - 1, 0]
    lev = np.array(gen.levels_of(d))
    sc = lev[k]
    data = EventWithScoreData()
    ev = np.stack([np.arange(c['n']) % 7, np.arange(c['n']) % 5], axis=1)
    if c['given']:
        data.set_event(ev, sc, score_domain=domain_arg(c))
    else:
        data.set_event(ev, sc)
    eq(data.score, sc, 'scores')
    check_grid(data, d)
    eq(data.digitize_score(), k, 'digits of many scores')
    eq(data.digitize_score(lev), np.arange(d['n']), 'digits of all levels')
    i = int(rng.randint(0, d['n'] - 1))
    th = (lev[i] + lev[i + 1]) / 2
    data.binarize_score(th)
    eq(data.score, (k > i).astype(int), 'binarized scores')
    rec.nt(d['n'] > 255 or c['n'] > 2 ** 15)
    rec.label('estimated domain', not c['given'])


# -- one container with several domains, one after another ----------------------------

@st.composite
def coarser(draw, d):
    """a domain with the same range"""
    f = draw(st.sampled_from([i for i in range(1, d['n'])
                              if (d['n'] - 1) % i == 0]))
    return dict(d, s=d['s'] * f, n=(d['n'] - 1) // f + 1)


@st.composite
def histories(draw):
    d = draw(gen.domains(max_levels=9))
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        what = draw(st.sampled_from(
            ['set', 'coarser', 'unit', 'same size', 'binarize', 'filter']))
        x = {'what': what, 'look': draw(st.booleans())}
        if what == 'set':
            d = draw(gen.domains(max_levels=9))
        elif what == 'coarser':
            d = draw(coarser(d))
        elif what == 'unit':
            q = draw(st.sampled_from([1, 2, 3, 4, 5, 10]))
            d = {'a': 0, 's': 1, 'q': q, 'n': q + 1}
        elif what == 'same size':
            d = dict(draw(gen.domains(max_levels=9)), n=d['n'])
        elif what == 'binarize':
            x['thresh'] = draw(st.integers(0, max(0, d['n'] - 2)))
            d = {'a': 0, 's': 1, 'q': 1, 'n': 2}
        if what not in ('binarize', 'filter'):
            x['domain'] = d
            x['levels'] = draw(st.lists(st.integers(0, d['n'] - 1),
                                        min_size=1, max_size=8))
        steps.append(x)
    d = draw(gen.domains(max_levels=9))
    return {'first': {'domain': d, 'levels': draw(st.lists(
        st.integers(0, d['n'] - 1), min_size=1, max_size=8))},
        'steps': steps, 'triple': draw(st.sampled_from(
            ['tuple', 'list', 'array']))}


@sub('C05', 'history', histories(), 500, 5000,
     'the domain changes and was looked at before')
def history(case, rec):
    """what is known of a domain is not used for the next one"""
    data = EventWithScoreData()
    looked = False

    def fill(x):
        lev = gen.levels_of(x['domain'])
        n = len(x['levels'])
        domain = domain_arg(dict(x, triple=case['triple']))
        data.set_event(
            np.array([[i % 3, i % 2] for i in range(n)]),
            np.array([lev[i] for i in x['levels']]), score_domain=domain)
        forget(domain)

    fill(case['first'])
    d, k = case['first']['domain'], list(case['first']['levels'])
    check_grid(data, d)
    eq(data.digitize_score(), k, 'digits of scores')
    for x in case['steps']:
        if x['what'] == 'binarize':
            lev = gen.levels_of(d)
            i = min(x['thresh'], d['n'] - 2)
            data.binarize_score((lev[i] + lev[i + 1]) / 2)
            k = [int(j > i) for j in k]
            d = {'a': 0, 's': 1, 'q': 1, 'n': 2}
        elif x['what'] == 'filter':
            data = data.filter_event(np.arange(len(k)) % 2 == 0)
            k = k[::2]
        else:
            fill(x)
            d, k = x['domain'], list(x['levels'])
        if x['look'] or x is case['steps'][-1]:
            what = 'after %s: ' % x['what']
            check_grid(data, d, what)
            eq(data.digitize_score(), k, what + 'digits of scores')
            eq(data.digitize_score(np.array(gen.levels_of(d))),
               np.arange(d['n']), what + 'digits of all levels')
            looked = True
        rec.label(x['what'])
    rec.nt(looked and len(case['steps']) > 1)
