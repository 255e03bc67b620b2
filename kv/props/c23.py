"""C23: k-fold within groups partitions every group evenly"""
from hypothesis import strategies as st
import numpy as np
from kamrecsys.model_selection import KFoldWithinGroups
from ..core import sub, must, eq, raises
from .c22 import (alternately, groupings, large_groups, large_labels,
                  members_of, pieces, run_split, same_splits, state_of, states,
                  wide_)


@st.composite
def cases(draw):
    k = draw(st.integers(2, 5))
    enough = draw(st.integers(0, 4)) > 0
    g = draw(groupings(max_groups=4, max_size=12, min_size=k if enough
                       else 1))
    return {'g': g, 'k': k, 'shuffle': draw(st.booleans()),
            'default': draw(st.booleans()),
            'seed': draw(st.integers(0, 2 ** 31 - 1)), 'state': draw(states),
            'wide': draw(wide_), 'labels': draw(st.booleans()),
            'numpy': draw(st.booleans())}


def splitter(c):
    kw = {'shuffle': True, 'random_state': state_of(
        c.get('state'), c['seed'])} if c['shuffle'] else {'shuffle': False}
    if c['k'] != 3 or not c['default']:
        kw['n_splits'] = np.int8(c['k']) if c.get('numpy') else c['k']
    return KFoldWithinGroups(**kw)


@sub('C23', 'partition', cases(), 2000, 15000,
     'more than one group of different sizes, and splits are possible')
def partition(case, rec):
    c = case
    mem = members_of(c['g'])
    n, k = len(c['g']['labels']), c['k']
    cv = splitter(c)
    must(cv.get_n_splits() == k, 'get_n_splits')
    possible = min(len(v) for v in mem.values()) >= k
    rec.label('impossible', not possible)
    if not possible:
        raises(ValueError, lambda: run_split(cv, c), 'too small groups')
        return
    state = np.random.get_state()[1].copy()
    got = run_split(cv, c)
    must(len(got) == k, 'number of splits', len(got), k)
    every = []
    for j, (a, b) in enumerate(got):
        sa, sb = set(a.tolist()), set(b.tolist())
        must(len(sa) == len(a) and len(sb) == len(b), 'no repetition', a, b)
        must(not sa & sb and sa | sb == set(range(n)),
             'training data are the complement of test data', a, b)
        every += b.tolist()
    must(sorted(every) == list(range(n)), 'test sets partition all data',
         every)
    for g, v in mem.items():
        parts = [[i for i in v if i in set(b.tolist())] for _, b in got]
        num = [len(p) for p in parts]
        must(max(num) - min(num) <= 1, 'folds of a group differ by at most '
             'one', g, num)
        if not c['shuffle']:
            # consecutive members, larger folds first
            q, r = divmod(len(v), k)
            at = 0
            for j in range(k):
                m = q + (1 if j < r else 0)
                must(parts[j] == v[at:at + m],
                     'fold %d of an unshuffled group' % j, g, parts[j])
                at += m
    if c['state'] != 'state' or not c['shuffle']:
        same_splits(got, run_split(cv, c), 'the same splitter again')
        for x in alternately(lambda: pieces(cv, c)):
            same_splits(got, x, 'two splits at once')
        same_splits(got, run_split(splitter(dict(c, state='int')), c),
                    'the same number')
    same_splits(got, run_split(splitter(c), c), 'the same seed')
    must(np.array_equal(state, np.random.get_state()[1]),
         'the global random state is left alone')
    rec.nt(len(set(len(v) for v in mem.values())) > 1)
    rec.label('without groups', c['g']['kind'] == 'none')
    rec.label('shuffled', c['shuffle'])
    rec.label('seeded by a generator', c['shuffle'] and
              c['state'] == 'state')
    rec.label('sparse data', c['wide'] in ('csr', 'csc', 'coo', 'lil'))
    rec.label('uneven', any(len(v) % k for v in mem.values()))


@st.composite
def shuffle_cases(draw):
    n = draw(st.integers(1, 3))
    lab = draw(st.permutations([g for g in range(n) for _ in range(40)]))
    return {'g': {'kind': 'int', 'labels': list(lab)}, 'k': 2,
            'shuffle': True, 'default': False, 'wide': False,
            'state': draw(states), 'labels': False, 'seeds': draw(st.lists(
                st.integers(0, 2 ** 31 - 1), min_size=2, max_size=3,
                unique=True))}


@sub('C23', 'shuffling', shuffle_cases(), 150, 1500, 'more than one group')
def shuffling(case, rec):
    c = case
    mem = members_of(c['g'])
    seen = {}
    for s in c['seeds']:
        cv = splitter(dict(c, seed=s))
        # a generator goes on
        for j in range(2 if c['state'] == 'state' else 1):
            _, b = run_split(cv, c)[0]
            b = set(b.tolist())
            for k, v in mem.items():
                pat = tuple(x in b for x in v)
                must(pat not in seen, 'folds differ among groups and seeds',
                     seen.get(pat), (s, j, k))
                seen[pat] = (s, j, k)
                must(list(pat) != sorted(pat) and
                     list(pat) != sorted(pat)[::-1], 'folds are shuffled')
    rec.nt(len(mem) > 1)


@st.composite
def bad_cases(draw):
    return {'k': draw(st.one_of(st.integers(-3, 1), st.integers(2, 12))),
            'n': draw(st.integers(1, 11)), 'grouped': draw(st.booleans()),
            'shuffle': draw(st.booleans())}


@sub('C23', 'rejections', bad_cases(), 200, 1000, 'two folds or more')
def rejections(case, rec):
    c = case

    def go():
        cv = KFoldWithinGroups(n_splits=c['k'], shuffle=c['shuffle'])
        g = np.zeros(c['n'], dtype=int) if c['grouped'] else None
        return list(cv.split(np.arange(c['n']), groups=g))
    if c['k'] < 2 or c['k'] > c['n']:
        raises(ValueError, go, 'illegal number of folds')
    else:
        must(len(go()) == c['k'], 'number of splits')
    rec.nt(c['k'] >= 2)
    rec.label('rejected', c['k'] < 2 or c['k'] > c['n'])


@st.composite
def large_cases(draw):
    k = draw(st.sampled_from([2, 3, 5, 10, 10]))
    c = draw(large_groups(least=k))
    c['folds'] = k
    if c['shape'] == 'splits':
        c['folds'] = c['least'] = draw(st.sampled_from([129, 257, 300]))
        c['n'] = c['k'] * c['least'] + c['seed'] % 50
    c['shuffle'] = draw(st.booleans())
    return c


@sub('C23', 'large', large_cases(), 40, 400,
     'more than 128 groups or folds, or 1000 data')
def large(case, rec):
    c = case
    num, lab = large_labels(c)
    n, k = len(num), c['folds']
    cnt = np.bincount(num, minlength=c['k'])
    rec.label(c['shape'])

    def run():
        cv = KFoldWithinGroups(
            n_splits=k, shuffle=c['shuffle'],
            random_state=c['seed'] if c['shuffle'] else None)
        return [(np.array(a), np.array(b))
                for a, b in cv.split(np.arange(n), groups=lab)]
    got = run()
    must(len(got) == k, 'number of splits', len(got), k)
    fold = np.full(n, -1)
    for j, (a, b) in enumerate(got):
        must(len(b) and b.min() >= 0 and (fold[b] == -1).all() and
             len(set(b.tolist())) == len(b), 'test sets do not overlap', j)
        fold[b] = j
        rest = np.ones(n, dtype=bool)
        rest[b] = False
        eq(np.sort(a), np.nonzero(rest)[0],
           'training data are the complement of test data')
    must((fold >= 0).all(), 'test sets cover all data')
    per = np.zeros((c['k'], k), dtype=int)
    np.add.at(per, (num, fold), 1)
    must((per.max(axis=1) - per.min(axis=1) <= 1).all(),
         'folds of a group differ by at most one')
    if not c['shuffle']:
        for g in range(c['k']):
            f = fold[num == g]
            q, r = divmod(int(cnt[g]), k)
            eq(f, np.repeat(np.arange(k), [q + (j < r) for j in range(k)]),
               'folds of an unshuffled group')
    same_splits(got, run(), 'the same seed')
    rec.nt(c['k'] > 128 or n > 1000 or k > 128)
