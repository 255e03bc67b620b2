"""C06: loading an event file gives back the events written in it"""
import bz2
import gzip
import io
import os
import pathlib
import shutil
import tempfile
from hypothesis import strategies as st
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from kamrecsys.datasets import load_event, load_event_with_score
from ..core import sub, must, eq, close
from .. import gen
from .c01 import check_tables, check_events

FIELDS = {
    'int': st.integers(-10 ** 6, 10 ** 12),
    'float': st.one_of(
        st.integers(-400, 400).map(lambda i: i / 8.0),
        st.floats(-1e9, 1e9, allow_nan=False)),
    # blanks inside only: those around are no part of a value
    'str': st.text(alphabet='abcXYZ019_-. ', max_size=8).map(
        lambda s: s.strip()),
    'pair': st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list),
    'byte': st.integers(-128, 127),
    'single': st.integers(-2 ** 12, 2 ** 12).map(lambda i: i / 16.0),
    'flag': st.booleans(),
    'text': st.text(alphabet=u'aZ9 .\xe9\xfc\u3042\u0416', max_size=8).map(
        lambda s: s.strip()),
    'ascii': st.text(alphabet='abcXYZ019_-. ', max_size=8).map(
        lambda s: s.strip()),
}
DT = {'int': int, 'float': float, 'str': 'U8', 'pair': (int, (2,)),
      'byte': 'i1', 'single': 'f4', 'flag': bool, 'text': 'U8',
      'ascii': 'S8'}


@st.composite
def cases(draw):
    c = draw(gen.events(kinds=('small', 'int', 'wide'), max_rows=12))
    n = len(c['rows'])
    c['scored'] = draw(st.booleans())
    if c['scored']:
        c['domain'] = draw(gen.domains())
        c['levels'] = draw(st.lists(
            st.integers(0, c['domain']['n'] - 1), min_size=n, max_size=n))
        # an estimated domain needs two different scores
        c['give_domain'] = draw(st.booleans()) or len(set(c['levels'])) < 2
    if draw(st.booleans()):
        c['fields'] = draw(st.lists(
            st.sampled_from(sorted(FIELDS)), min_size=1, max_size=3))
        c['features'] = [[draw(FIELDS[f]) for f in c['fields']]
                         for _ in range(n)]
    else:
        c['fields'] = c['features'] = None
    # features of a type without fields
    c['plain'] = bool(c['fields']) and len(c['fields']) == 1 and \
        draw(st.booleans())
    c['source'] = draw(st.sampled_from(
        ['path', 'path', 'file', 'text', 'gz', 'bz2', 'pathlib', 'memory',
         'lines', 'iterator']))
    if c['source'] == 'file' and 'text' in (c['fields'] or ()):
        # characters of bytes are up to the caller
        c['source'] = 'text'
    # lines the caller read before
    c['read'] = draw(st.sampled_from([0, 0, 1, 3])) \
        if c['source'] in ('file', 'text', 'memory', 'iterator') else 0
    c['pad'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    c['note'] = draw(st.integers(0, 5)) == 0
    c['newline'] = draw(st.booleans())
    c['header'] = draw(st.booleans())
    # lines of text that are no events
    c['between'] = draw(st.lists(st.tuples(
        st.integers(0, n), st.sampled_from(['', '', '# comment', '#',
                                            '#1\t2\t3', '# a\tb'])).map(list),
        max_size=3))
    c['eol'] = draw(st.sampled_from(['\n', '\n', '\n', '\r\n']))
    c['kwargs'] = draw(st.booleans())
    return c


def line(case, r):
    out = [str(x) for x in case['rows'][r]]
    if case['scored']:
        out.append(repr(gen.levels_of(case['domain'])[case['levels'][r]]))
    out = [u' ' * (case['pad'] % 2) + v + u' ' * (case['pad'] // 2)
           for v in out]
    if case['features']:
        for f, v in zip(case['fields'], case['features'][r]):
            if f == 'pair':
                out += [str(x) for x in v]
            else:
                out.append(v if f in ('str', 'text', 'ascii') else repr(v))
    return u'\t'.join(out) + (u' # a note' if case['note'] else u'')


def load(case, path):
    kw = {}
    if case['n_otypes'] != 2 or case['kwargs']:
        kw['n_otypes'] = case['n_otypes']
    if case['event_otypes'] is not None or case['kwargs']:
        kw['event_otypes'] = case['event_otypes']
    if case['fields']:
        kw['event_dtype'] = np.dtype([
            ('f%d' % i, DT[f]) if f != 'pair' else
            ('f%d' % i, int, (2,)) for i, f in enumerate(case['fields'])])
        if case['plain']:
            kw['event_dtype'] = DT[case['fields'][0]]
            if case['kwargs']:
                kw['event_dtype'] = np.dtype(kw['event_dtype'])
    fn = load_event
    if case['scored']:
        fn = load_event_with_score
        kw['score_domain'] = gen.triple_of(case['domain']) \
            if case['give_domain'] else None
    if case['source'] in ('path', 'gz', 'bz2'):
        return fn(path, **kw)
    if case['source'] == 'pathlib':
        return fn(pathlib.Path(path), **kw)
    if case['source'] == 'file':
        with open(path, 'rb') as f:
            for _ in range(case['read']):
                f.readline()
            return fn(f, **kw)
    with io.open(path, encoding='utf-8') as f:
        for _ in range(case['read']):
            f.readline()
        if case['source'] == 'text':
            return fn(f, **kw)
        text = f.read()
    if case['source'] == 'memory':
        f = io.StringIO(u'9\t9\n' * case['read'] + text)
        for _ in range(case['read']):
            f.readline()
        return fn(f, **kw)
    lines = text.splitlines()
    return fn(lines if case['source'] == 'lines' else iter(lines), **kw)


@sub('C06', 'round_trip', cases(), 900, 9000,
     'at least two lines with features or scores, or an unusual layout')
def round_trip(case, rec):
    n = len(case['rows'])
    d = tempfile.mkdtemp(prefix='kv-c06-')
    try:
        kind = {'gz': '.gz', 'bz2': '.bz2'}.get(case['source'], '')
        path = os.path.join(d, 'x.event' + kind)
        lines = [line(case, r) for r in range(n)]
        for at, other in sorted(case['between'], reverse=True):
            lines.insert(at, other)
        eol = case['eol']
        text = eol.join(lines)
        if case['header']:
            text = u'# a comment line' + eol + text
        if case['newline']:
            text += eol
        # of the table of which only the end is loaded
        text = (u'users and items' + eol) * case['read'] + text
        raw = text.encode('utf-8')
        with {'.gz': gzip.open, '.bz2': bz2.open}.get(kind, io.open)(
                path, 'wb') as f:
            f.write(raw)
        with open(path, 'rb') as f:
            raw = f.read()
        data = load(case, path)
        with open(path, 'rb') as f:
            must(f.read() == raw, 'the file is not modified')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    must(isinstance(data, EventData), 'a container is returned', type(data))
    must(isinstance(data, EventWithScoreData) == case['scored'],
         'container with or without scores', type(data))
    check_tables(data, case, case['rows'])
    check_events(data, case, case['rows'])
    if case['scored']:
        lev = gen.levels_of(case['domain'])
        sc = [lev[i] for i in case['levels']]
        eq(data.score, sc, 'scores of lines')
        if case['give_domain']:
            close(data.score_domain, gen.triple_of(case['domain']),
                  'given score domain')
            must(data.n_score_levels == case['domain']['n'],
                 'number of levels')
        else:
            u = sorted(set(sc))
            step = min(b - a for a, b in zip(u, u[1:]))
            close(data.score_domain, [u[0], u[-1], step],
                  'estimated score domain')
    if case['fields']:
        must(data.event_feature is not None and
             len(data.event_feature) == n, 'one feature per event')
        for i, f in enumerate(case['fields']):
            got = data.event_feature
            if not case['plain']:
                got = got['f%d' % i]
            want = [v[i] for v in case['features']]
            if f == 'ascii':
                want = [v.encode('ascii') for v in want]
            must(np.asarray(got).dtype.base == np.dtype(DT[f]).base,
                 'type of event features', np.asarray(got).dtype)
            must(np.asarray(got).tolist() == want,
                 'event feature of kind ' + f, got, want)
    else:
        must(data.event_feature is None, 'no event features')
    rec.nt((n > 1 and (case['scored'] or bool(case['fields']))) or
           case['n_otypes'] != 2 or case['event_otypes'] is not None)
    rec.label('single line', n == 1)
    rec.label('one column of ids', len(gen.cols_of(case)) == 1)
    rec.label('scored', case['scored'])
    rec.label('estimated domain',
              case['scored'] and not case['give_domain'])
    rec.label('features', bool(case['fields']))
    rec.label('source:' + case['source'])
    rec.label('lines read before', case['read'] > 0)
    rec.label('features without fields', case['plain'])
    rec.label('blanks around numbers', case['pad'] > 0)
    rec.label('notes behind events', case['note'])
    rec.label('comments or empty lines', bool(case['between']))
    rec.label('carriage returns', case['eol'] != '\n')


# -- defaults ----------------------------------------------------------------

@st.composite
def default_cases(draw):
    n = draw(st.integers(1, 10))
    return {'rows': draw(st.lists(st.tuples(
        st.integers(1, 9), st.integers(1, 9), st.integers(1, 5)).map(list),
        min_size=n, max_size=n)), 'file': draw(st.booleans())}


@sub('C06', 'defaults', default_cases(), 150, 1500,
     'at least two lines')
def defaults(case, rec):
    """two columns of ids and scores from 1 to 5 by default"""
    d = tempfile.mkdtemp(prefix='kv-c06-')
    try:
        path = os.path.join(d, 'x.event')
        for scored in (False, True):
            with io.open(path, 'w') as f:
                for u, i, s in case['rows']:
                    f.write(u'%d\t%d' % (u, i))
                    f.write(u'\t%d\n' % s if scored else u'\n')
            fn = load_event_with_score if scored else load_event
            if case['file']:
                with open(path, 'rb') as f:
                    data = fn(f)
            else:
                data = fn(path)
            ev = [r[:2] for r in case['rows']]
            c = {'kind': 'int', 'n_otypes': 2, 'event_otypes': None,
                 'rows': ev}
            check_tables(data, c, ev)
            check_events(data, c, ev)
            if scored:
                eq(data.score, [r[2] for r in case['rows']], 'scores')
                eq(data.score_domain, [1, 5, 1], 'default score domain')
                must(data.n_score_levels == 5, 'default number of levels')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.nt(len(case['rows']) > 1)


# -- long files: cases are seeds and sizes ---------------------------------------

@st.composite
def large_cases(draw):
    return {'n': draw(st.sampled_from([300, 3000, 12000, 33000])),
            'wide': draw(st.booleans()), 'scored': draw(st.booleans()),
            'features': draw(st.booleans()),
            'given': draw(st.booleans()), 'file': draw(st.booleans()),
            'seed': draw(st.integers(0, 10 ** 6))}


@sub('C06', 'large', large_cases(), 12, 100, 'thousands of lines')
def large(case, rec):
    c = case
    n = c['n']
    rng = np.random.RandomState(c['seed'])
    ev = np.stack([rng.randint(-n, n, n), rng.randint(1, 99, n)], axis=1)
    if c['wide']:
        ev = ev + 2 ** 53
    k = rng.randint(0, 10, n)
    k[:3] = [0, 1, 9]
    name = np.array(['x%d' % v for v in rng.randint(0, 10 ** 6, n)])
    when = rng.randint(0, 2 ** 40, n)
    col = [ev[:, 0].tolist(), ev[:, 1].tolist()]
    if c['scored']:
        col.append([v / 2.0 for v in k.tolist()])
    kw = {}
    if c['features']:
        col += [name.tolist(), when.tolist()]
        kw['event_dtype'] = np.dtype([('name', 'U8'), ('when', int)])
    if c['scored'] and (not c['given'] or c['seed'] % 2):
        kw['score_domain'] = (0, 4.5, 0.5) if c['given'] else None
    elif c['scored']:
        # the default domain does not depend on scores in the file
        c['given'] = 'default'
    d = tempfile.mkdtemp(prefix='kv-c06-')
    try:
        path = os.path.join(d, 'x.event')
        with io.open(path, 'w', encoding='ascii') as f:
            for row in zip(*col):
                f.write(u'\t'.join(str(v) for v in row) + u'\n')
        fn = load_event_with_score if c['scored'] else load_event
        if c['file']:
            with open(path, 'rb') as f:
                data = fn(f, **kw)
        else:
            data = fn(path, **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    must(data.n_events == n, 'number of events', data.n_events, n)
    eq(data.to_eid_event(data.event), ev, 'events of lines')
    for o in range(2):
        eq(np.sort(data.eid[o]), np.unique(ev[:, o]), 'objects of a type')
    if c['scored']:
        eq(data.score, k / 2.0, 'scores of lines')
        close(data.score_domain, [1, 5, 1] if c['given'] == 'default'
              else [0, 4.5, 0.5], 'score domain')
    if c['features']:
        must(data.event_feature['name'].tolist() == name.tolist() and
             data.event_feature['when'].tolist() == when.tolist(),
             'features of lines')
    else:
        must(data.event_feature is None, 'no event features')
    rec.nt(n > 2000)
