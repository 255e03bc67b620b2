"""
Shared Hypothesis strategies (all cases are JSON-able) and builders.
"""
from hypothesis import strategies as st

import numpy as np

# -- external ids ------------------------------------------------------------

_text = st.text(
    alphabet=st.sampled_from(
        list('abcXYZ019 _-.') + [u'\u00e9', u'\u3042', u'\U0001f363']),
    min_size=1, max_size=6)


def id_pool(kind, max_size=8, min_size=1):
    if kind == 'small':
        e = st.integers(-3, max(12, 2 * min_size))
    elif kind == 'int':
        e = st.integers(0, 2000)
    elif kind == 'wide':
        e = st.one_of(st.integers(-2 ** 62, 2 ** 62),
                      st.integers(2 ** 53 - 3, 2 ** 53 + 3))
    elif kind == 'float':
        e = st.integers(-40, 40).map(lambda i: i / 4.0)
    elif kind == 'str':
        # numpy strips trailing NULs only, which are not generated
        e = _text
    else:
        raise ValueError(kind)
    return st.lists(e, min_size=min_size, max_size=max_size, unique=True)


ID_KINDS = ['small', 'int', 'wide', 'str', 'float']


def id_array(rows, kind, s_event=None):
    """rows of external ids as a two dimensional array"""
    dtype = {'str': None, 'float': float}.get(kind, int)
    if kind == 'str':
        n = max([len(x) for r in rows for x in r] or [1])
        dtype = 'U%d' % max(n, 1)
    a = np.array(rows, dtype=dtype)
    if len(rows) == 0:
        a = a.reshape((0, s_event))
    return a


TYPES = [None, None, None, None, 'tight', 'object', 'other', 'swapped']


def retype(raw, t):
    """the same external ids in another type of array"""
    k = raw.dtype.kind
    if raw.size == 0 or t is None:
        return raw
    if t == 'object':
        return raw.astype(object)
    if t == 'tight' and k == 'i':
        for x in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4'):
            if np.array_equal(raw.astype(x), raw):
                return raw.astype(x)
    if t == 'other':
        if k == 'i' and raw.min() >= 0:
            return raw.astype('u8')
        if k == 'f':
            # quarters of small numbers
            return raw.astype('f4')
    if t == 'swapped':
        return raw.astype(raw.dtype.newbyteorder())
    return raw


# types of ids that are no ordinary numbers or strings; increasing maps
SPECIAL = {
    'bytes': lambda a: np.char.mod('%06d', a + 1000).astype('S6'),
    'date': lambda a: a.astype('M8[D]'),
    'time': lambda a: a.astype('M8[s]') + np.timedelta64(10 ** 9, 's'),
    'delta': lambda a: (a * 250).astype('m8[ms]'),
    'top': lambda a: a.astype('u8') + np.uint64(2 ** 63),
    'half': lambda a: a.astype('f2'),
    'long': lambda a: a.astype('g') / 4,
}
specials = st.sampled_from(sorted(SPECIAL))


# how arrays lie in memory
LAYOUTS = ['C', 'C', 'C', 'F', 'strided', 'reversed', 'backwards', 'locked']
layouts = st.sampled_from(LAYOUTS)


def lay(raw, how):
    """an equal array that lies otherwise in memory"""
    if how == 'F':
        return np.asfortranarray(raw)
    if how == 'strided':
        return np.repeat(raw, 2, axis=-1)[..., ::2]
    if how == 'reversed':
        return raw[::-1].copy()[::-1]
    if how == 'backwards':
        return raw[..., ::-1].copy()[..., ::-1]
    if how == 'locked':
        raw = raw.copy()
        raw.flags.writeable = False
    return raw


# types of arrays of scores
SCORE_TYPES = [None, None, None, 'int', 'tight', 'unsigned', 'bool',
               'half', 'single', 'swapped']
score_types = st.sampled_from(SCORE_TYPES)


def retype_scores(sc, t):
    """the same scores in another type of array, if it can hold them"""
    sc = np.asarray(sc)
    for x in {'int': ['i8'], 'tight': ['i1', 'i2', 'i4'],
              'unsigned': ['u1', 'u2', 'u4', 'i4'],
              'half': ['f2', 'f4'], 'single': ['f4'], 'swapped': ['>f8'],
              'bool': [bool, 'u1', 'i1']}.get(t, []):
        if sc.size and np.array_equal(sc.astype(x), sc):
            return sc.astype(x)
    return sc


@st.composite
def otypes(draw, max_otypes=3, max_cols=4):
    """(n_otypes, event_otypes or None)"""
    n = draw(st.sampled_from([2, 2, 2, 1, 3][:2 + max_otypes]))
    if max_otypes == 3 and draw(st.integers(0, 11)) == 0:
        # many types and columns
        n, max_cols = draw(st.integers(4, 9)), 12
    if draw(st.integers(0, 2)) == 0:
        return n, None
    eo = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=max_cols))
    return n, eo


@st.composite
def rows_of(draw, kind, pools, cols, min_rows=1, max_rows=25):
    cells = [st.sampled_from(pools[o]) for o in cols]
    return draw(st.lists(
        st.tuples(*cells).map(list), min_size=min_rows, max_size=max_rows))


@st.composite
def events(draw, kinds=tuple(ID_KINDS), max_otypes=3, max_cols=4,
           min_rows=1, max_rows=25, pool=8):
    kind = draw(st.sampled_from(list(kinds)))
    n, eo = draw(otypes(max_otypes, max_cols))
    cols = list(range(n)) if eo is None else eo
    pools = [draw(id_pool(kind, pool)) for _ in range(n)]
    rows = draw(rows_of(kind, pools, cols, min_rows, max_rows))
    return {'kind': kind, 'n_otypes': n, 'event_otypes': eo, 'rows': rows}


def cols_of(case):
    eo = case['event_otypes']
    return list(range(case['n_otypes'])) if eo is None else list(eo)


def objects_of(case, rows=None):
    """the set of external ids of each object type"""
    cols = cols_of(case)
    rows = case['rows'] if rows is None else rows
    return [set(r[c] for r in rows for c in range(len(cols)) if cols[c] == o)
            for o in range(case['n_otypes'])]


def unknown_ids(kind, known, n=3):
    """ids of the same kind that are not in `known`"""
    if kind == 'str':
        cand = [u'zz%d' % i for i in range(n + len(known))] + [u'']
        # what a comparison of truncated, stripped or folded ids confuses
        for k in sorted(known)[:3]:
            cand += [k + u'x', k + u' ', k + u'0', k[:-1], u' ' + k,
                     k.upper(), k.lower(), k.strip()]
        cand = sorted(set(c for c in cand))
    elif kind == 'float':
        cand = [i / 4.0 + 0.125 for i in range(n + len(known))] + [100.5]
        for k in sorted(known)[:3]:
            cand += [k + 2.0 ** -20, k + 2.0 ** 32, -k - 0.5]
    else:
        cand = list(range(-9, n + len(known))) + [2 ** 40 + 1, -2 ** 40]
        for k in sorted(known)[:3]:
            # what a narrower integer or a float confuses
            cand += [c for c in (k + 256, k + 2 ** 16, k + 2 ** 32,
                                 k - 2 ** 32, k + 1, k - 1)
                     if -2 ** 63 <= c < 2 ** 63]
    return [c for c in cand if c not in known]


# -- score domains: exact rational grids --------------------------------------

@st.composite
def domains(draw, max_levels=12, exact=False, min_levels=2):
    """{'a','s','q','n'}: levels are (a + s * i) / q for i in 0..n-1"""
    q = draw(st.sampled_from(
        [1, 1, 2, 4] if exact else [1, 1, 2, 4, 5, 10, 10, 3, 100]))
    s = draw(st.integers(1, 3 * q if q < 5 else q))
    a = draw(st.integers(-5 * q, 5 * q))
    n = draw(st.integers(min_levels, max_levels))
    return {'a': a, 's': s, 'q': q, 'n': n}


def levels_of(d):
    return [(d['a'] + d['s'] * i) / float(d['q']) for i in range(d['n'])]


def triple_of(d):
    q = float(d['q'])
    return (d['a'] / q, (d['a'] + d['s'] * (d['n'] - 1)) / q, d['s'] / q)


def domain_is_exact(d):
    return d['q'] in (1, 2, 4)


finite_floats = st.floats(
    allow_nan=False, allow_infinity=False, width=64,
    min_value=-1e6, max_value=1e6)


# -- many objects: cases are seeds and sizes, built with numpy -------------------

SIZES = [90, 129, 200, 257, 300, 1000, 1500, 4000]
HUGE = [32769, 40000, 65537, 70000]


@st.composite
def large(draw, huge=True, sizes=tuple(SIZES)):
    """two types of many objects; see `large_ids` and `large_rows`"""
    n = [draw(st.sampled_from(list(sizes))) for _ in range(2)]
    if huge and draw(st.integers(0, 2)) == 0:
        n[draw(st.integers(0, 1))] = draw(st.sampled_from(HUGE))
    return {'n': n, 'seed': draw(st.integers(0, 10 ** 6)),
            'kind': draw(st.sampled_from(['int', 'wide', 'str', 'float'])),
            'more': draw(st.integers(0, 500))}


def large_ids(c):
    """external ids of both types, in the order of their internal ids"""
    rng = np.random.RandomState(c['seed'])
    out = []
    for n in c['n']:
        x = np.cumsum(rng.randint(1, 4, n)) - n // 2
        if c['kind'] == 'wide':
            x = x + 2 ** 53
        elif c['kind'] == 'float':
            x = x / 4.0
        elif c['kind'] == 'str':
            x = np.array(sorted('k%d' % v for v in x))
        out.append(x)
    return out


def large_rows(c, cols=2):
    """events (internal ids) in which every object appears"""
    rng = np.random.RandomState(c['seed'] + 1)
    m = max(c['n']) + c['more']
    return np.stack([rng.permutation(np.r_[
        np.arange(n), rng.randint(0, n, m - n)]) for n in c['n']], axis=1)
