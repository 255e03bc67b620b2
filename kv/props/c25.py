"""C25: results containers become JSON without losing values"""
import collections
import datetime
import io
import json
import math
from hypothesis import strategies as st
import numpy as np
from scipy import sparse
from kamrecsys.utils import json_decodable
from ..core import sub, must

# A case describes a value by [type, content]; `build` makes the value and
# `expect` says what it has to become.

INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
        'uint64', 'intp']
NUM = st.integers(-100, 100)


@st.composite
def extremes(draw):
    """the least and largest integers of a type, and its neighbours"""
    t = draw(st.sampled_from(INTS))
    i = np.iinfo(t)
    return ('np.' + t, int(draw(st.sampled_from([i.max, i.min]))) if draw(
        st.booleans()) else draw(st.integers(int(i.min), int(i.max))))


def leaves():
    f = st.one_of(st.integers(-64, 64).map(lambda i: i / 8.0),
                  st.floats(allow_nan=False, allow_infinity=False))
    small = st.integers(-64, 64).map(lambda i: i / 8.0)
    return st.one_of(
        st.tuples(st.just('int'), st.integers(-2 ** 70, 2 ** 70)),
        st.tuples(st.just('float'), f),
        st.tuples(st.just('bool'), st.booleans()),
        st.tuples(st.just('str'), st.text(max_size=5)),
        st.tuples(st.just('np.bool_'), st.booleans()),
        st.tuples(st.sampled_from(['np.' + t for t in INTS]),
                  st.integers(0, 100)),
        st.tuples(st.just('np.int64'), st.integers(-2 ** 63, 2 ** 63 - 1)),
        extremes(),
        st.tuples(st.just('np.float64'), f),
        st.tuples(st.sampled_from(['np.float32', 'np.float16']), small),
        st.tuples(st.just('np.str_'), st.text('ab\u3042', max_size=4)),
        st.tuples(st.just('other'), st.sampled_from(
            ['none', 'object', 'class', 'bytes', 'tuple', 'set', 'fraction',
             'date', 'dtype'])),
        st.tuples(st.sampled_from(['int array', 'float array', 'bool array',
                                   'str array']),
                  st.lists(NUM, max_size=6)),
        st.tuples(st.just('matrix'), st.tuples(
            st.integers(0, 3), st.integers(0, 3), st.integers(0, 99))),
        st.tuples(st.just('cube'), st.integers(0, 99)),
        st.tuples(st.sampled_from(['scalar array', 'scalar of object']), NUM),
        st.tuples(st.just('scalar of date'), st.integers(1, 28)),
        st.tuples(st.just('scalar of float'), small),
        st.tuples(st.sampled_from(['csr', 'csc', 'lil', 'coo', 'dok']),
                  st.tuples(st.integers(1, 3), st.integers(1, 3),
                            st.integers(0, 99))),
        st.tuples(st.just('structured'), NUM),
    )


# JSON writes these as strings
other_keys = st.one_of(
    st.integers(-3, 12), st.booleans(), st.none(),
    st.integers(-9, 9).map(lambda i: i / 4.0), st.text('01', max_size=1))


def json_key(k):
    return list(json.loads(json.dumps({k: 0})))[0]


def with_json_keys(x):
    if isinstance(x, dict):
        return {json_key(k): with_json_keys(v) for k, v in x.items()}
    return [with_json_keys(v) for v in x] if isinstance(x, list) else x


def nest(child):
    keys = st.text('abc 01\u3042', max_size=4)
    return st.one_of(
        st.tuples(st.just('dict'), st.lists(
            st.tuples(keys, child), max_size=5, unique_by=lambda t: t[0])),
        st.tuples(st.just('dict'), st.lists(
            st.tuples(other_keys, child), max_size=5,
            unique_by=lambda t: json_key(t[0]))),
        st.tuples(st.just('list'), st.lists(child, max_size=5)),
        st.tuples(st.sampled_from(['ordered dict', 'default dict',
                                   'own dict']), st.lists(
            st.tuples(keys, child), max_size=4, unique_by=lambda t: t[0])),
        st.tuples(st.just('own list'), st.lists(child, max_size=4)),
        st.tuples(st.just('object array'), st.lists(child, max_size=3)))


def containers():
    tree = st.recursive(leaves(), nest, max_leaves=14)
    keys = st.one_of(st.text('abc 01', max_size=4), other_keys)
    return st.one_of(
        st.tuples(st.just('dict'), st.lists(
            st.tuples(keys, tree), max_size=6,
            unique_by=lambda t: json_key(t[0]))),
        st.tuples(st.just('list'), st.lists(tree, max_size=6)))


class OwnDict(dict):
    pass


class OwnList(list):
    pass


class Thing(object):
    def __repr__(self):
        return 'a thing'


def other(name):
    import datetime
    import fractions
    return {'none': None, 'object': Thing(), 'class': Thing,
            'bytes': b'ab', 'tuple': (1, 'x'), 'set': {3},
            'fraction': fractions.Fraction(1, 3),
            'date': datetime.date(2020, 1, 2),
            'dtype': np.dtype(float)}[name]


def numbers(n, seed):
    return [(seed * 7 + 3 * i) % 5 - 1 for i in range(n)]


def build(v):
    t, x = v
    if t == 'dict':
        return {k: build(y) for k, y in x}
    if t == 'list':
        return [build(y) for y in x]
    if t == 'own list':
        return OwnList(build(y) for y in x)
    if t.endswith(' dict'):
        pairs = [(k, build(y)) for k, y in x]
        if t == 'default dict':
            return collections.defaultdict(list, pairs)
        return (OwnDict if t == 'own dict' else
                collections.OrderedDict)(pairs)
    if t == 'object array':
        a = np.empty(len(x), dtype=object)
        for i, y in enumerate(x):
            a[i] = build(y)
        return a
    if t in ('int', 'float', 'bool', 'str'):
        return x
    if t.startswith('np.'):
        return getattr(np, t[3:])(x)
    if t == 'other':
        return other(x)
    if t.endswith(' array') and t != 'scalar array':
        kind = t.split()[0]
        return np.array([str(y) for y in x] if kind == 'str' else x,
                        dtype={'str': 'U5'}.get(kind, kind))
    if t == 'scalar array':
        return np.array(x)
    if t == 'scalar of object':
        return np.array(np.int64(x), dtype=object)
    if t == 'scalar of date':
        return np.array(np.datetime64('2020-01-%02d' % x))
    if t == 'scalar of float':
        return np.array(x)
    if t == 'matrix':
        return np.array(numbers(x[0] * x[1], x[2]), dtype=float).reshape(
            (x[0], x[1]))
    if t == 'cube':
        return np.array(numbers(8, x)).reshape((2, 2, 2))
    if t == 'structured':
        return np.array([(x, x / 2.0)], dtype=[('a', int), ('b', float)])
    m = np.array(numbers(x[0] * x[1], x[2])).reshape((x[0], x[1]))
    return getattr(sparse, t + '_matrix')(m)


def expect(v):
    t, x = v
    if t.endswith('dict'):
        return {k: expect(y) for k, y in x}
    if t in ('list', 'own list', 'object array'):
        return [expect(y) for y in x]
    if t in ('int', 'float', 'bool', 'str'):
        return x
    if t == 'np.bool_':
        return bool(x)
    if t.startswith('np.float'):
        return float(x)
    if t == 'np.str_':
        return str(x)
    if t.startswith('np.'):
        return int(x)
    if t == 'other':
        return str(other(x))
    if t == 'int array':
        return [int(y) for y in x]
    if t == 'float array':
        return [float(y) for y in x]
    if t == 'bool array':
        return [bool(y) for y in x]
    if t == 'str array':
        return [str(y) for y in x]
    if t in ('scalar array', 'scalar of object'):
        return int(x)
    if t == 'scalar of date':
        return '2020-01-%02d' % x
    if t == 'scalar of float':
        return float(x)
    if t == 'cube':
        a = numbers(8, x)
        return [[a[0:2], a[2:4]], [a[4:6], a[6:8]]]
    if t == 'structured':
        # rows are tuples
        return [str((x, x / 2.0))]
    a = numbers(x[0] * x[1], x[2])
    if t == 'matrix':
        a = [float(y) for y in a]
    return [a[i * x[1]:(i + 1) * x[1]] for i in range(x[0])]


def same(a, b, path):
    must(type(a) is type(b) or
         (isinstance(b, (dict, list)) and isinstance(a, type(b))) or
         (isinstance(a, str) and isinstance(b, str)),
         'type of the value at %s' % path, a, b)
    if isinstance(a, dict):
        must(list(a) == list(b), 'keys at %s' % path, list(a), list(b))
        for k in a:
            same(a[k], b[k], '%s/%s' % (path, k))
    elif isinstance(a, list):
        must(len(a) == len(b), 'length at %s' % path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s/%d' % (path, i))
    else:
        must(a == b, 'value at %s' % path, a, b)
        if isinstance(a, float):
            must(math.copysign(1, a) == math.copysign(1, b), 'sign', a)


def depth(v):
    if v[0].endswith('dict'):
        return 1 + max([depth(y) for _, y in v[1]] or [0])
    if v[0] in ('list', 'own list', 'object array'):
        return 1 + max([depth(y) for y in v[1]] or [0])
    return 0


def kinds(v, out):
    out.add(v[0])
    if v[0].endswith('dict'):
        for _, y in v[1]:
            kinds(y, out)
    elif v[0] in ('list', 'own list', 'object array'):
        for y in v[1]:
            kinds(y, out)
    return out


@sub('C25', 'containers', st.builds(
    lambda v, w, d: {'value': v, 'shared': w == 0, 'deep': d}, containers(),
    st.integers(0, 5), st.sampled_from([0, 0, 0, 0, 0, 1, 9, 40, 120])),
     1500, 15000, 'nested, with values of numpy or scipy')
def convert(case, rec):
    v = case['value']
    x = build(v)
    want = expect(v)
    if case.get('shared'):
        # one object at several places
        part = np.arange(3)
        few = sparse.csr_matrix([[0, 1], [2, 0]])
        day = datetime.date(2020, 1, 2)
        one, both = np.float64(0.5), [np.int64(4), few]
        x = {'a': x, 'b': [x, {'c': part}], 'd': part, 'e': [part, part],
             'f': part, 'g': x, 'h': few, 'i': few, 'j': day, 'k': day,
             'l': one, 'm': one, 'n': both, 'o': both, 'p': [both, few]}
        want = {'a': want, 'b': [want, {'c': [0, 1, 2]}], 'd': [0, 1, 2],
                'e': [[0, 1, 2], [0, 1, 2]], 'f': [0, 1, 2], 'g': want}
        few2 = [[0, 1], [2, 0]]
        want.update(h=few2, i=few2, j='2020-01-02', k='2020-01-02', l=0.5,
                    m=0.5, n=[4, few2], o=[4, few2], p=[[4, few2], few2])
    for i in range(case['deep']):
        # levels of containers around it
        x = [{'in': x}, [x, 'out'], [np.int8(i), x]][i % 3]
        want = [{'in': want}, [want, 'out'], [i, want]][i % 3]
    json_decodable(x)
    if case.get('shared'):
        must(isinstance(part, np.ndarray) and part.tolist() == [0, 1, 2],
             'arrays of others are left alone', part)
        rec.label('the same object twice')
    same(x, want, '')
    text = json.dumps(x)
    same(json.loads(text), with_json_keys(want), '(read back)')
    f = io.StringIO()
    json.dump(x, f)
    must(f.getvalue() == text, 'dumped to a file')
    json_decodable(x)
    same(x, want, '(converted twice)')
    k = kinds(v, set())
    rec.nt(depth(v) > 1 and bool(
        k - {'dict', 'list', 'int', 'float', 'bool', 'str', 'other'}))
    rec.label('sparse', bool(k & {'csr', 'csc', 'lil', 'coo', 'dok'}))
    rec.label('numpy scalars', any(t.startswith('np.') for t in k))
    rec.label('object arrays', 'object array' in k)
    rec.label('containers of other classes', any(
        ' dict' in t or t == 'own list' for t in k))


special = st.sampled_from(['nan', 'inf', '-inf'])


@sub('C25', 'special', st.builds(
    lambda a, b, c: {'a': a, 'b': b, 'deep': c}, st.lists(
        special, min_size=1, max_size=4), st.lists(NUM, min_size=1, max_size=3),
    st.booleans()), 200, 1500, 'always')
def special_values(case, rec):
    """numbers that are not finite, and complex numbers, are kept"""
    v = [float(x) for x in case['a']]
    x = {'f': list(v), 'n': [np.float64(y) for y in v],
         'a': np.array(v), 's': np.float32(v[0]),
         'c': [complex(b, 1) for b in case['b']],
         'd': [np.complex128(complex(b, 1)) for b in case['b']],
         'e': np.complex64(complex(case['b'][0], 1))}
    if case['deep']:
        x = [{'x': x}]
    json_decodable(x)
    y = x[0]['x'] if case['deep'] else x

    def same_float(a, b):
        must(type(a) is float and (a == b or (a != a and b != b)),
             'numbers that are not finite', a, b)
    for k in 'fna':
        must(len(y[k]) == len(v), 'length', y[k])
        for a, b in zip(y[k], v):
            same_float(a, b)
    same_float(y['s'], v[0])
    must(type(y['e']) is complex and y['e'] == complex(case['b'][0], 1),
         'complex number', y['e'])
    for k in 'cd':
        must(y[k] == [complex(b, 1) for b in case['b']] and
             all(type(z) is complex for z in y[k]), 'complex numbers', y[k])
    rec.nt()


@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([257, 1001, 5000, 70000])),
            'seed': draw(st.integers(0, 10 ** 6)),
            'type': draw(st.sampled_from(
                ['int64', 'uint8', 'float64', 'float32', 'bool', 'object']))}


@sub('C25', 'large', large_cases(), 40, 400, 'more than 256 values')
def large(case, rec):
    c, n = case, case['n']
    rng = np.random.RandomState(c['seed'])
    a = rng.randint(0, 2, n) if c['type'] == 'bool' else rng.randint(
        0, 200, n)
    a = a.astype(c['type'])
    if c['type'] == 'float64':
        a = a / 7.0
    v = a.tolist()
    x = {'array': a, 'list': list(a), 'column': a.reshape((-1, 1)),
         'text': 'xyz' * n, 'keys': dict(('k%d' % i, e)
                                         for i, e in enumerate(a)),
         'rows': [[e, np.array([e])] for e in a[:500]],
         'sparse': sparse.csr_matrix(np.eye(3, 400))}
    json_decodable(x)
    want = {'array': v, 'list': v, 'column': [[e] for e in v],
            'text': 'xyz' * n,
            'keys': dict(('k%d' % i, e) for i, e in enumerate(v)),
            'rows': [[e, [e]] for e in v[:500]],
            'sparse': np.eye(3, 400).tolist()}
    same(x, want, '')
    must(json.loads(json.dumps(x)) == want, 'read back')
    rec.nt(True)
