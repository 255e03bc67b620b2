"""C22: shuffle splits are drawn within each group"""
import math
from hypothesis import strategies as st
import numpy as np
from scipy import sparse
from kamrecsys.model_selection import ShuffleSplitWithinGroups
from ..core import sub, must, eq, raises


@st.composite
def groupings(draw, max_groups=5, max_size=9, min_size=1):
    """group labels of data, in a random order"""
    kind = draw(st.sampled_from(['none', 'int', 'int', 'str', 'float']))
    k = 1 if kind == 'none' else draw(st.integers(1, max_groups))
    sizes = [draw(st.integers(min_size, max_size)) for _ in range(k)]
    if kind == 'str':
        names = draw(st.lists(st.text('abz09', min_size=1, max_size=3),
                              min_size=k, max_size=k, unique=True))
    else:
        names = draw(st.lists(st.integers(-5, 50), min_size=k, max_size=k,
                              unique=True))
        if kind == 'float':
            names = [v / 4.0 for v in names]
    lab = [g for g, n in zip(names, sizes) for _ in range(n)]
    lab = draw(st.permutations(lab))
    return {'kind': kind, 'labels': list(lab), 'form': draw(
        st.sampled_from(FORMS))}


# how labels of groups are stored
FORMS = ['plain', 'plain', 'narrow', 'unsigned', 'wide', 'objects', 'flags',
         'column', 'locked', 'backwards', 'bytes']


def groups_of(g):
    if g['kind'] == 'none':
        return None
    a, form = np.array(g['labels']), g.get('form')
    if form == 'narrow' and g['kind'] != 'str':
        a = a.astype('i1' if g['kind'] == 'int' else 'f2')
    elif form == 'unsigned' and g['kind'] == 'int':
        a = (a + 5).astype('u1')
    elif form == 'wide' and g['kind'] == 'int':
        a = a + 2 ** 60
    elif form == 'objects':
        a = a.astype(object)
    elif form == 'flags' and len(set(g['labels'])) < 3:
        a = a == a.max() if g['kind'] != 'str' else a == a[0]
    elif form == 'column':
        # such as users of events
        a = np.stack([a[::-1], a], axis=1)[:, 1]
    elif form == 'locked':
        a.flags.writeable = False
    elif form == 'backwards':
        a = a[::-1].copy()[::-1]
    elif form == 'bytes' and g['kind'] == 'str':
        a = a.astype('S3')
    return a


def members_of(g):
    """indices of data for each group"""
    out = {}
    for i, x in enumerate(g['labels']):
        out.setdefault(x, []).append(i)
    return out


WIDE = ['deep', 'none', 'column', 'fortran', 'text', 'objects', 'csr', 'csc',
        'coo', 'lil']
wide_ = st.one_of(st.booleans(), st.sampled_from(WIDE))


def data_of(g, wide):
    n = len(g['labels'])
    if wide in WIDE:
        d = np.arange(1, 3 * n + 1).reshape((n, 3)) % 4
        return {'deep': lambda: np.zeros((n, 2, 2)),
                'none': lambda: np.zeros((n, 0)),
                'column': lambda: np.arange(n).reshape((n, 1)),
                'fortran': lambda: np.asfortranarray(d),
                'text': lambda: np.array(['x%d' % i for i in range(n)]),
                'objects': lambda: np.array([[i, 'x'] for i in range(n)],
                                            dtype=object),
                'csr': lambda: sparse.csr_matrix(d),
                'csc': lambda: sparse.csc_matrix(d),
                'coo': lambda: sparse.coo_matrix(d),
                'lil': lambda: sparse.lil_matrix(d),
                }[wide]()
    return np.arange(2 * n).reshape((n, 2)) if wide else np.arange(n)


# what determines the splits: numbers or generators
STATES = ['int', 'int', 'int', 'int64', 'uint32', 'state']
states = st.sampled_from(STATES)


def state_of(kind, seed):
    return {'int': int, 'int64': np.int64, 'uint32': np.uint32,
            'state': np.random.RandomState}[kind or 'int'](seed)


def alternately(make):
    """two splits of one splitter, consumed one after the other"""
    a, b = make(), make()
    out = [(next(a), next(b))]
    out += list(zip(a, b))
    return [[(np.array(x[i][0]), np.array(x[i][1])) for x in out]
            for i in range(2)]


size_ = st.one_of(
    st.none(), st.integers(1, 5),
    st.integers(1, 19).map(lambda i: i / 20.0),
    st.sampled_from([1 / 3.0, 0.1, 0.2, 0.7, 2 / 3.0]))


@st.composite
def cases(draw):
    g = draw(groupings(min_size=draw(st.sampled_from([1, 2, 4, 5]))))
    c = {'g': g, 'test': draw(size_), 'train': draw(st.one_of(
        st.none(), st.none(), size_)),
        'defaults': draw(st.integers(0, 5)) == 0,
        'shuffle': draw(st.integers(0, 3)) > 0,
        'n_splits': draw(st.integers(1, 4)), 'wide': draw(wide_),
        'state': draw(states), 'seed': draw(st.integers(0, 2 ** 31 - 1)),
        'labels': draw(st.booleans()), 'numpy': draw(st.booleans())}
    return c


def sizes(n, test, train):
    """numbers of test and training data, or None if impossible"""
    if test is None and train is None:
        test = 0.25
    def num(v, up):
        if isinstance(v, float):
            return int(math.ceil(v * n) if up else math.floor(v * n))
        return v
    if isinstance(test, int) and test >= n or \
            isinstance(train, int) and train >= n:
        return None
    if isinstance(test, float) and isinstance(train, float) and \
            test + train > 1:
        return None
    a = None if test is None else num(test, True)
    b = None if train is None else num(train, False)
    if a is None:
        a = n - b
    if b is None:
        b = n - a
    if a + b > n or b == 0:
        return None
    return a, b


def number(v, c):
    """a number of python or numpy"""
    if not c.get('numpy') or v is None:
        return v
    return np.float64(v) if isinstance(v, float) else np.int32(v)


def splitter(c, seed):
    kw = {} if c['defaults'] else {
        'test_size': number(c['test'], c), 'train_size':
        number(c['train'], c)}
    return ShuffleSplitWithinGroups(
        n_splits=number(c['n_splits'], c), shuffle=c['shuffle'],
        random_state=state_of(c.get('state'), seed), **kw)


def pieces(cv, c):
    X = data_of(c['g'], c['wide'])
    y = np.arange(X.shape[0]) % 2 if c['labels'] else None
    return iter(cv.split(X, y, groups_of(c['g'])))


def run_split(cv, c):
    return [(np.array(a), np.array(b)) for a, b in pieces(cv, c)]


def same_splits(a, b, what):
    must(len(a) == len(b), what, len(a), len(b))
    for x, y in zip(a, b):
        eq(x[0], y[0], what + ': training')
        eq(x[1], y[1], what + ': test')


@sub('C22', 'sizes', cases(), 2000, 15000,
     'more than one group of different sizes, and splits are possible')
def sizes_check(case, rec):
    c = case
    test, train = (0.1, None) if c['defaults'] else (c['test'], c['train'])
    mem = members_of(c['g'])
    want = {k: sizes(len(v), test, train) for k, v in mem.items()}
    cv = splitter(c, c['seed'])
    must(cv.get_n_splits() == c['n_splits'], 'get_n_splits')
    rec.label('impossible', None in want.values())
    if None in want.values():
        raises(ValueError, lambda: run_split(cv, c), 'impossible sizes')
        return
    state = np.random.get_state()[1].copy()
    got = run_split(cv, c)
    must(len(got) == c['n_splits'], 'number of splits', len(got))
    n = len(c['g']['labels'])
    for a, b in got:
        must(a.ndim == 1 and b.ndim == 1, 'indices', a, b)
        sa, sb = set(a.tolist()), set(b.tolist())
        must(len(sa) == len(a) and len(sb) == len(b), 'no repetition', a, b)
        must(not sa & sb, 'training and test data are disjoint', a, b)
        must(sa | sb <= set(range(n)), 'indices of data', a, b)
        if test is None or train is None:
            must(len(sa | sb) == n, 'all data are used', a, b)
        for k, v in mem.items():
            must(len(sb & set(v)) == want[k][0], 'number of test data of a '
                 'group', k, len(sb & set(v)), want[k])
            must(len(sa & set(v)) == want[k][1], 'number of training data '
                 'of a group', k, len(sa & set(v)), want[k])
            if not c['shuffle']:
                t, m = want[k][1], sum(want[k])
                must(sa & set(v) == set(v[:t]) and
                     sb & set(v) == set(v[t:m]), 'the order of data', k)
    if c['state'] != 'state':
        same_splits(got, run_split(cv, c), 'the same splitter again')
        for x in alternately(lambda: pieces(cv, c)):
            same_splits(got, x, 'two splits at once')
        same_splits(got, run_split(splitter(dict(c, state='int'), c['seed']),
                                   c), 'the same number')
    same_splits(got, run_split(splitter(c, c['seed']), c), 'the same seed')
    must(np.array_equal(state, np.random.get_state()[1]),
         'the global random state is left alone')
    rec.nt(len(set(len(v) for v in mem.values())) > 1)
    rec.label('without groups', c['g']['kind'] == 'none')
    rec.label('sparse data', c['wide'] in ('csr', 'csc', 'coo', 'lil'))
    rec.label('both sizes', test is not None and train is not None)
    rec.label('not shuffled', not c['shuffle'])
    rec.label('seeded by a generator', c['state'] == 'state')


@st.composite
def differ_cases(draw):
    n = draw(st.integers(1, 3))
    lab = draw(st.permutations([g for g in range(n) for _ in range(40)]))
    return {'g': {'kind': 'int', 'labels': list(lab)}, 'test': 0.5,
            'train': draw(st.sampled_from([None, 0.5])), 'defaults': False,
            'shuffle': True, 'n_splits': draw(st.integers(2, 4)),
            'state': draw(states), 'wide': False, 'labels': False,
            'seeds': draw(st.lists(st.integers(0, 2 ** 31 - 1), min_size=2,
                                   max_size=3, unique=True))}


@sub('C22', 'randomness', differ_cases(), 150, 1500, 'more than one group')
def randomness(case, rec):
    c = case
    mem = members_of(c['g'])
    seen = {}
    for s in c['seeds']:
        cv = splitter(c, s)
        got = run_split(cv, c)
        if c['state'] == 'state':
            # a generator goes on
            got += run_split(cv, c)
        for j, (_, b) in enumerate(got):
            b = set(b.tolist())
            for k, v in mem.items():
                # positions of test data within the group
                pat = tuple(x in b for x in v)
                must(pat not in seen, 'splits differ among iterations, '
                     'groups and seeds', seen.get(pat), (s, j, k))
                seen[pat] = (s, j, k)
                must(pat != tuple(sorted(pat)), 'splits are shuffled')
    rec.nt(len(mem) > 1)


# -- many data, groups and iterations: cases are seeds and sizes ----------------

@st.composite
def large_groups(draw, least=2):
    shape = draw(st.sampled_from(['groups', 'groups', 'data', 'one', 'splits']))
    c = {'seed': draw(st.integers(0, 10 ** 6)), 'least': least,
         'kind': draw(st.sampled_from(['int', 'wide', 'str', 'float'])),
         'sorted': draw(st.integers(0, 3)) == 0, 'shape': shape}
    if shape == 'groups':
        c['k'] = draw(st.sampled_from([129, 257, 300, 300]))
        c['n'] = c['k'] * least + draw(st.integers(0, 900))
    elif shape == 'data':
        c['k'] = draw(st.integers(2, 20))
        c['n'] = draw(st.sampled_from([1025, 5000, 32769, 66000]))
    elif shape == 'one':
        c['k'] = 1
        c['n'] = draw(st.sampled_from([1025, 5000, 32769, 66000]))
    else:
        c['k'] = draw(st.integers(1, 3))
        c['n'] = c['k'] * least + draw(st.integers(0, 60))
    return c


def large_labels(c):
    """(numbers of groups, labels of groups) of data"""
    rng = np.random.RandomState(c['seed'])
    k = c['k']
    num = np.r_[np.repeat(np.arange(k), c['least']), rng.randint(
        0, rng.randint(1, k + 1), c['n'] - k * c['least'])]
    num = np.sort(num) if c['sorted'] else rng.permutation(num)
    names = rng.permutation(4 * k)[:k]
    if c['kind'] == 'wide':
        names = names + 2 ** 53
    elif c['kind'] == 'float':
        names = names / 8.0
    elif c['kind'] == 'str':
        names = np.array(['group %d' % v for v in names])
    if k == 1 and c['seed'] % 2:
        return num, None
    return num, names[num]


@st.composite
def large_cases(draw):
    c = draw(large_groups(least=draw(st.sampled_from([2, 5]))))
    c['test'] = draw(st.sampled_from([1, 0.1, 0.25, 0.5, 1 / 3.0]))
    c['train'] = draw(st.sampled_from([None, None, 1, 0.5]))
    c['shuffle'] = draw(st.integers(0, 3)) > 0
    c['n_splits'] = draw(st.sampled_from([130, 260])) \
        if c['shape'] == 'splits' else draw(st.integers(1, 2))
    return c


@sub('C22', 'large', large_cases(), 40, 400,
     'more than 128 groups, 1000 data or 100 iterations')
def large(case, rec):
    c = case
    num, lab = large_labels(c)
    n, k = len(num), c['k']
    cnt = np.bincount(num, minlength=k)
    want = [sizes(int(v), c['test'], c['train']) for v in cnt]
    rec.label('impossible', None in want)
    rec.label(c['shape'])

    def make():
        return ShuffleSplitWithinGroups(
            n_splits=c['n_splits'], test_size=c['test'],
            train_size=c['train'], shuffle=c['shuffle'],
            random_state=c['seed'])

    def run(cv):
        return [(np.array(a), np.array(b))
                for a, b in cv.split(np.arange(n), groups=lab)]
    if None in want:
        raises(ValueError, lambda: run(make()), 'impossible sizes')
        return
    test = np.array([w[0] for w in want])
    train = np.array([w[1] for w in want])
    got = run(make())
    must(len(got) == c['n_splits'], 'number of splits', len(got))
    for a, b in got:
        used = np.bincount(np.r_[a, b], minlength=n)
        must(len(used) == n and used.max() <= 1 and
             min(a.min(), b.min()) >= 0,
             'training and test data are different data', a, b)
        eq(np.bincount(num[b], minlength=k), test, 'test data of groups')
        eq(np.bincount(num[a], minlength=k), train, 'training data of groups')
    if c['shuffle'] and n > 200:
        # a half of many data is never drawn twice by chance
        seen = [tuple(sorted(b.tolist())) for _, b in got]
        if int(np.minimum(test, cnt - test).sum()) > 60:
            must(len(set(seen)) == len(seen), 'iterations differ')
    if c['shape'] != 'splits':
        same_splits(got, run(make()), 'the same seed')
    rec.nt(k > 128 or n > 1000 or c['n_splits'] > 100)
