"""C07: converters and loaders preserve every record of the raw data

The code runs from a scratch copy of the working tree (package and converter
scripts), so that the default places of input and output can be used.
"""
import atexit
import importlib
import io
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from hypothesis import strategies as st
import numpy as np
from ..core import sub, must, eq, close, Fail
from .. import gen
from ..runner import REPO

ROOT = tempfile.mkdtemp(prefix='kv-c07-')
OWNER = os.getpid()


@atexit.register
def _cleanup():
    if os.getpid() == OWNER:
        shutil.rmtree(ROOT, ignore_errors=True)


shutil.copytree(os.path.join(REPO, 'kamrecsys'),
                os.path.join(ROOT, 'kamrecsys'))
shutil.copytree(os.path.join(REPO, 'data'), os.path.join(ROOT, 'data'))
for _m in [m for m in sys.modules if m.split('.')[0] == 'kamrecsys']:
    del sys.modules[_m]
sys.path.insert(0, ROOT)
ds = importlib.import_module('kamrecsys.datasets')
if not os.path.realpath(ds.__file__).startswith(os.path.realpath(ROOT)):
    raise RuntimeError('wrong copy: ' + ds.__file__)
RAW = os.path.join(ROOT, 'data')
SAMPLES = os.path.join(ROOT, 'kamrecsys', 'datasets', 'data')
SCRIPTS = set(os.listdir(RAW))
KEEP = set(os.listdir(SAMPLES))


def clean():
    shutil.rmtree(os.path.join(ROOT, 'target'), ignore_errors=True)
    for d, keep in ((RAW, SCRIPTS), (SAMPLES, KEEP)):
        for f in os.listdir(d):
            if f not in keep:
                os.unlink(os.path.join(d, f))


def write(path, lines, eol, encoding='ascii'):
    with io.open(path, 'w', encoding=encoding, newline='') as f:
        f.write(u''.join(x + eol for x in lines))


def convert(script, explicit):
    """
    run a converter; the output is placed in the sample directory: by default,
    because it is given, or it is moved there from another one that is given;
    in this process, or as a command where texts are ASCII by default
    """
    path = os.path.join(RAW, script)
    if explicit == 'help':
        # the documentation is printed, nothing else
        have = listing()
        command([path, '-h'])
        must(listing() == have, 'files written by a request for help')
        explicit = 'command'
    if explicit == 'command':
        return command([path, SAMPLES])
    if explicit == 'relative':
        # from another directory, to which all paths are relative
        cwd = os.path.join(ROOT, 'kamrecsys')
        return command([os.path.relpath(path, cwd),
                        os.path.relpath(SAMPLES, cwd)], cwd)
    target = SAMPLES
    if explicit == 'elsewhere':
        target = os.path.join(ROOT, 'target')
        os.mkdir(target)
        if script == 'movielens_mini.py':
            shutil.copy(os.path.join(SAMPLES, 'movielens100k.event'), target)
    have = listing()
    old = sys.argv
    sys.argv = [path] + ([target] if explicit else [])
    try:
        runpy.run_path(path, run_name='__main__')
    except SystemExit as e:
        must(not e.code, 'converter ends with an error', script, e.code)
    except OSError as e:
        raise Fail('converter %s: %r' % (script, e))
    finally:
        sys.argv = old
        if target != SAMPLES:
            now = listing()
            for f in os.listdir(target):
                os.replace(os.path.join(target, f), os.path.join(SAMPLES, f))
            os.rmdir(target)
    if target != SAMPLES:
        must(now == have, 'only the given directory is written to')


EXPLICIT = st.sampled_from(
    [False, False, False, True, True, 'elsewhere', 'elsewhere', 'command',
     'relative', 'help'])


def listing():
    return sorted((d, f, os.stat(os.path.join(d, f)).st_mtime_ns)
                  for d in (RAW, SAMPLES) for f in os.listdir(d))


def command(argv, cwd=ROOT):
    p = subprocess.run(
        [sys.executable, '-B'] + argv, cwd=cwd, stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        env=dict(os.environ, LC_ALL='C', PYTHONCOERCECLOCALE='0',
                 PYTHONUTF8='0', PYTHONPATH=''))
    must(p.returncode == 0, 'converter as a command', argv,
         p.stdout.decode('utf-8', 'replace')[-400:])


def load(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except OSError as e:
        raise Fail('loader: %r' % (e,))


def load_part(fn, name, rows):
    """
    load the first half of the events from a file of another name: (data,
    their ratings); features of the others are not needed
    """
    half = rows[:(len(rows) + 1) // 2]
    at = os.path.join(SAMPLES, name + '.event')
    with io.open(at, encoding='utf-8') as f:
        lines = f.readlines()
    os.unlink(at)
    note = [x for x in lines if x.startswith('#')]
    body = [x for x in lines if not x.startswith('#')]
    must(len(body) == len(rows), name + ': a line for each event', lines[-3:])
    path = os.path.join(ROOT, 'part.event')
    with io.open(path, 'w', encoding='utf-8') as f:
        f.write(u''.join(note + body[:len(half)]))
    if len(rows) % 2:
        return load(fn, path), half
    with io.open(path, 'rb' if len(rows) % 4 else 'r') as f:
        return load(fn, infile=f), half


def check_ratings(data, rows, domain, what):
    must(data.n_events == len(rows), what + ': number of events',
         data.n_events, len(rows))
    dec = data.to_eid_event(data.event)
    eq(dec, [[u, i] for u, i, _ in rows], what + ': events')
    close(data.score, [s for _, _, s in rows], what + ': scores')
    if domain is not None:
        close(data.score_domain, domain, what + ': score domain')
    for o in (0, 1):
        must(set(np.asarray(data.eid[o]).tolist()) ==
             set(r[o] for r in rows), what + ': objects')


def check_table(table, parts, what):
    names = [str(n).lower() for n in table]
    must(len(names) == len(parts) and
         all(p in n for p, n in zip(parts, names)), what, names)


def check_features(data, otype, records, what):
    """records: external id -> {field: value}"""
    feat = data.feature[otype]
    must(feat is not None and len(feat) == len(data.eid[otype]),
         what + ': a feature for every object')
    for i, e in enumerate(np.asarray(data.eid[otype]).tolist()):
        for k, v in records[e].items():
            got = feat[k][i]
            if isinstance(v, float):
                close(got, v, what + ': ' + k, rtol=1e-12)
            else:
                got = np.asarray(got).tolist()
                must(got == v, '%s: %s of object %r' % (what, k, e), got, v)


NAME_CHARS = list(u"abcdeXYZ 0129 ',.&!?-():/\"") + [
    u'\u00e9', u'\u00f1', u'\u00c0', u'\u00a0', u'\u2026', u'\u20ac',
    u'\u00df', u'\u0160']


def titles(max_size):
    t = st.text(alphabet=st.sampled_from(NAME_CHARS), min_size=1,
                max_size=max_size).filter(lambda s: s.strip() == s)
    # also of the maximal length
    return st.one_of(t, t, t.map(
        lambda s: (s + u'Zaq' * max_size)[:max_size]).filter(
            lambda s: s.strip() == s))


OCC100K = ('none other administrator artist doctor educator engineer '
           'entertainment executive healthcare homemaker lawyer librarian '
           'marketing programmer retired salesman scientist student '
           'technician writer').split()
GENRES = ("Action Adventure Animation Children's Comedy Crime Documentary "
          "Drama Fantasy Film-Noir Horror Musical Mystery Romance Sci-Fi "
          "Thriller War Western").split()
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
ZIPS = st.text(alphabet='0123456789TVHN', min_size=5, max_size=5)


def ids(max_id, max_size):
    def size(n):
        return st.lists(st.integers(1, max_id), min_size=n,
                        max_size=max_size, unique=True)
    return st.one_of(size(1), size(2), size(3))


@st.composite
def ratings(draw, users, items, scores, need=None):
    n = draw(st.integers(1, 15))
    rows = [[draw(st.sampled_from(users)), draw(st.sampled_from(items)),
             draw(st.sampled_from(scores))] for _ in range(n)]
    return rows


def stamps(draw, rows):
    return [r + [draw(st.integers(0, 2 ** 31))] for r in rows]


# -- MovieLens 100k and mini ---------------------------------------------------

@st.composite
def ml100k_cases(draw):
    users = draw(ids(18, 6))
    items = draw(ids(18, 6))
    if min(users) > 10:
        users.append(draw(st.integers(1, 10)))
    if min(items) > 10:
        items.append(draw(st.integers(1, 10)))
    return {
        'ratings': stamps(draw, draw(ratings(users, items, [1, 2, 3, 4, 5]))),
        'users': [[u, draw(st.integers(5, 80)), draw(st.sampled_from('MF')),
                   draw(st.sampled_from(OCC100K)), draw(ZIPS)]
                  for u in users],
        'items': [[i, draw(titles(81)),
                   draw(st.one_of(st.none(), st.tuples(
                       st.integers(1, 28), st.integers(1, 12),
                       st.integers(1920, 1999)).map(list))),
                   draw(st.sampled_from(['', '', '01-Jan-1998'])),
                   draw(st.sampled_from(
                       ['', 'http://us.imdb.com/M/title-exact?A%20(1995)',
                        'http://x/' + 'y' * 125])),
                   draw(st.integers(0, 1)),
                   draw(st.lists(st.integers(0, 1), min_size=18,
                                 max_size=18))]
                  for i in items],
        'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
        'explicit': draw(EXPLICIT),
    }


@sub('C07', 'movielens100k', ml100k_cases(), 160, 1600,
     'at least two users, two items and two ratings')
def movielens100k(case, rec):
    clean()
    eol = case['eol']
    write(os.path.join(RAW, 'u.data'),
          [u'%d\t%d\t%d\t%d' % tuple(r) for r in case['ratings']], eol)
    write(os.path.join(RAW, 'u.user'),
          [u'%d|%d|%s|%s|%s' % tuple(u) for u in case['users']], eol)
    lines = []
    for i, name, date, video, imdb, unk, flags in case['items']:
        d = '' if date is None else '%02d-%s-%d' % (
            date[0], MONTHS[date[1] - 1], date[2])
        lines.append(u'|'.join(
            [str(i), name, d, video, imdb, str(unk)] +
            [str(x) for x in flags]))
    write(os.path.join(RAW, 'u.item'), lines, eol, 'cp1252')
    convert('movielens100k.py', case['explicit'])
    users = {u[0]: {'age': u[1], 'gender': 'MF'.index(u[2]),
                    'occupation': OCC100K.index(u[3]), 'zip': u[4]}
             for u in case['users']}
    items = {i[0]: dict(zip(('day', 'month', 'year'), i[2] or (0, 0, 0)),
                        name=i[1], genre=i[6], imdb=i[4])
             for i in case['items']}

    def check(data, rows, what):
        check_ratings(data, [r[:3] for r in rows], (1, 5, 1), what)
        eq(data.event_feature['timestamp'], [r[3] for r in rows],
           what + ': timestamps')
        check_features(data, 0, users, what + ' users')
        check_features(data, 1, items, what + ' items')
        names = np.asarray(ds.MOVIELENS100K_INFO['user_occupation'])
        raw = {u[0]: u[3] for u in case['users']}
        for i, e in enumerate(np.asarray(data.eid[0]).tolist()):
            must(str(names[data.feature[0]['occupation'][i]]).lower() ==
                 raw[e], what + ': name of the occupation')
    check(load(ds.load_movielens100k), case['ratings'], '100k')
    must(list(ds.MOVIELENS100K_INFO['item_genre']) == GENRES,
         'names of genres')
    # the same events from a file given by the caller
    path = os.path.join(SAMPLES, 'movielens100k.event')
    check(load(ds.load_movielens100k, path), case['ratings'], 'given file')
    mini = [r for r in case['ratings'] if r[0] <= 10 and r[1] <= 10]
    convert('movielens_mini.py', case['explicit'])
    if mini:
        check(load(ds.load_movielens_mini), mini, 'mini')
    else:
        with io.open(os.path.join(SAMPLES, 'movielens_mini.event')) as f:
            must(all(x.startswith('#') or not x.strip() for x in f),
                 'no events are left in the mini data set')
    check(*load_part(ds.load_movielens100k, 'movielens100k',
                     case['ratings']) + ('half of 100k',))
    rec.nt(len(case['users']) > 1 and len(case['items']) > 1 and
           len(case['ratings']) > 1)
    rec.label('mini is a proper subset',
              0 < len(mini) < len(case['ratings']))
    rec.label('item without a date', any(
        i[2] is None for i in case['items']))
    rec.label('non-ASCII title', any(
        any(ord(c) > 127 for c in i[1]) for i in case['items']))


# -- MovieLens 1m ---------------------------------------------------------------

AGES = [1, 18, 25, 35, 45, 50, 56]
OCCUPATIONS_1M = (
    'other academic artist clerical college customer doctor executive farmer '
    'homemaker k-12 lawyer programmer retired sales scientist self technician '
    'tradesman unemployed writer').split()


@st.composite
def ml1m_cases(draw):
    users = draw(ids(6040, 6))
    items = draw(ids(3952, 6))
    if draw(st.integers(0, 3)) == 0 and 3845 not in items:
        items.append(3845)
    rec = []
    for i in items:
        repaired = i == 3845 and draw(st.booleans())
        aka = draw(st.integers(0, 4)) == 0
        t = draw(titles(75 - repaired - 7 * aka))
        t = t.replace('::', ':')
        while '::' in t:
            t = t.replace('::', ':')
        if repaired:
            t += '&#8230;'
        if aka:
            t += ' (1901)'
        rec.append([i, t, draw(st.integers(1919, 2000)),
                    draw(st.lists(st.integers(0, 17), min_size=1,
                                  max_size=4, unique=True))])
    return {
        'ratings': stamps(draw, draw(ratings(users, items, [1, 2, 3, 4, 5]))),
        'users': [[u, draw(st.sampled_from('MF')),
                   draw(st.sampled_from(AGES)), draw(st.integers(0, 20)),
                   draw(ZIPS) + draw(st.sampled_from(['', '', '-1234', '6']))]
                  for u in users],
        'items': rec,
        'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
        'explicit': draw(EXPLICIT),
    }


@sub('C07', 'movielens1m', ml1m_cases(), 160, 1600,
     'at least two users, two items and two ratings')
def movielens1m(case, rec):
    clean()
    eol = case['eol']
    write(os.path.join(RAW, 'ratings.dat'),
          [u'%d::%d::%d::%d' % tuple(r) for r in case['ratings']], eol)
    write(os.path.join(RAW, 'users.dat'),
          [u'%d::%s::%d::%d::%s' % tuple(u) for u in case['users']], eol)
    write(os.path.join(RAW, 'movies.dat'),
          [u'%d::%s (%d)::%s' % (i, t, y, u'|'.join(GENRES[x] for x in g))
           for i, t, y, g in case['items']], eol, 'cp1252')
    convert('movielens1m.py', case['explicit'])

    def check(data, rows, what):
        check_ratings(data, [r[:3] for r in rows], (1, 5, 1), what)
        eq(data.event_feature['timestamp'], [r[3] for r in rows],
           what + ': timestamps')
        check_features(data, 0, {
            u[0]: {'gender': 'MF'.index(u[1]), 'age': AGES.index(u[2]),
                   'occupation': u[3], 'zip': u[4][:5]}
            for u in case['users']}, what + ' users')
        check_features(data, 1, {
            i: {'name': u'%s (%d)' % (t.replace('&#8230;', u'\u2026'), y),
                'year': y, 'genre': [int(x in g) for x in range(18)]}
            for i, t, y, g in case['items']}, what + ' items')
    check(load(ds.load_movielens1m), case['ratings'], '1m')
    check(*load_part(ds.load_movielens1m, 'movielens1m', case['ratings']) +
          ('half of 1m',))
    must(list(ds.MOVIELENS1M_INFO['item_genre']) == GENRES,
         'names of genres')
    ages = list(ds.MOVIELENS1M_INFO['user_age'])
    must(ages[0] == 'Under 18' and
         [str(a)[:2] for a in ages[1:]] == [str(a) for a in AGES[1:]],
         'names of ages', ages)
    check_table(ds.MOVIELENS1M_INFO['user_occupation'], OCCUPATIONS_1M,
                'names of occupations')
    rec.nt(len(case['users']) > 1 and len(case['items']) > 1 and
           len(case['ratings']) > 1)
    rec.label('title of maximal length', any(
        len(i[1].replace('&#8230;', '.')) == 75 for i in case['items']))
    rec.label('repaired title', any(
        '&#8230;' in i[1] for i in case['items']))


# -- SUSHI3 ----------------------------------------------------------------------

# the codes of the distribution, by distinctive parts of their names
SUSHI_TABLES = {
    'user_age': '15 20 30 40 50 60'.split(),
    'user_prefecture': (
        'hokkai aomori iwate akita miyagi yamagata fukushima niigata ibaraki '
        'tochigi gunma saitama chiba tokyo kanagawa yamanashi shizuoka nagano '
        'aichi gifu toyama ishikawa fukui shiga mie kyoto osaka nara wakayama '
        'hyogo okayama hiroshima tottori shimane yamaguchi ehime kagawa '
        'tokushima kochi fukuoka nagasaki saga kumamoto kagoshima miyazaki '
        'oita okinawa japan').split(),
    'user_region': (
        'hokkai tohoku hokuriku kanto nagano chukyo kinki chugoku shikoku '
        'kyushu okinawa japan').split(),
    'item_genre': (
        'aomono akami shiromi tare clam squid shrimp roe other egg meat '
        'vegetable').split(),
}

UFIELDS = ('original_uid gender age answer_time child_prefecture '
           'child_region child_ew current_prefecture current_region '
           'current_ew moved').split()
IFIELDS = ('name maki seafood genre heaviness frequency price '
           'supply').split()


@st.composite
def sushi_cases(draw):
    nu, ni = draw(st.integers(1, 6)), draw(st.integers(1, 8))
    rows = [draw(st.lists(st.sampled_from([-1, -1, 0, 1, 2, 3, 4]),
                          min_size=ni, max_size=ni)) for _ in range(nu)]
    if all(x < 0 for r in rows for x in r):
        rows[-1][draw(st.integers(0, ni - 1))] = draw(st.integers(0, 4))
    num = st.integers(0, 4000).map(lambda i: i / 1000.0)
    return {
        'rows': rows,
        'users': [[draw(st.integers(0, 9999)), draw(st.integers(0, 1)),
                   draw(st.integers(0, 5)), draw(st.integers(100, 5000)),
                   draw(st.integers(0, 47)), draw(st.integers(0, 11)),
                   draw(st.integers(0, 1)), draw(st.integers(0, 47)),
                   draw(st.integers(0, 11)), draw(st.integers(0, 1)),
                   draw(st.integers(0, 1))] for _ in range(nu)],
        'items': [[draw(st.text(
                       alphabet=u'abz_\u3042\u6d77\u8001\u00e0',
                       min_size=draw(st.sampled_from([1, 1, 20])),
                       max_size=20)),
                   draw(st.integers(0, 1)), draw(st.integers(0, 1)),
                   draw(st.integers(0, 11)), draw(num), draw(num), draw(num),
                   draw(num)] for _ in range(ni)],
        'order': draw(st.permutations(list(range(ni)))),
        'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
        'explicit': draw(EXPLICIT),
    }


@sub('C07', 'sushi3', sushi_cases(), 160, 1600,
     'at least two users and two items with ratings')
def sushi3(case, rec):
    clean()
    eol = case['eol']
    write(os.path.join(RAW, 'sushi3b.5000.10.score'),
          [u' '.join(str(x) for x in r) for r in case['rows']], eol)
    write(os.path.join(RAW, 'sushi3.udata'),
          [u'\t'.join(str(x) for x in u) for u in case['users']], eol)
    write(os.path.join(RAW, 'sushi3.idata'),
          [u'\t'.join([str(i)] + [
              x if isinstance(x, type(u'')) else repr(x)
              for x in case['items'][i]]) for i in case['order']],
          eol, 'utf-8')
    convert('sushi3.py', case['explicit'])
    data = load(ds.load_sushi3b_score)
    rows = [[u, i, s] for u, r in enumerate(case['rows'])
            for i, s in enumerate(r) if s >= 0]
    for data, part in ((data, rows), load_part(
            ds.load_sushi3b_score, 'sushi3b_score', rows)):
        check_ratings(data, part, (0, 4, 1), 'sushi')
        check_features(data, 0, {
            u: dict(zip(UFIELDS, x)) for u, x in enumerate(case['users'])},
            'sushi users')
        check_features(data, 1, {
            i: dict(zip(IFIELDS, x)) for i, x in enumerate(case['items'])},
            'sushi items')
    for k in sorted(SUSHI_TABLES):
        check_table(ds.SUSHI3_INFO[k], SUSHI_TABLES[k], 'table ' + k)
    rec.nt(len(set(r[0] for r in rows)) > 1 and
           len(set(r[1] for r in rows)) > 1)
    rec.label('user without ratings',
              any(max(r) < 0 for r in case['rows']))


# -- Flixster, PCI ------------------------------------------------------------------

@st.composite
def flat_cases(draw):
    users, items = draw(ids(2000, 6)), draw(ids(2000, 6))
    half = [i / 2.0 for i in range(1, 11)]
    return {
        'ratings': draw(ratings(users, items, half)),
        'stamp': draw(st.booleans()),
        'people': [[draw(st.text(alphabet='abcXYZ .\'-', min_size=1,
                                 max_size=18).filter(
                                     lambda s: s.strip() == s)),
                    draw(st.text(alphabet='abcXYZ ,019', min_size=1,
                                 max_size=18).filter(
                                     lambda s: s.strip() == s)),
                    draw(st.sampled_from(half[1:]))]
                   for _ in range(draw(st.integers(1, 8)))],
        'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
        'explicit': draw(EXPLICIT),
        'given': draw(st.sampled_from(['default', 'path', 'file'])),
    }


@sub('C07', 'flixster_pci', flat_cases(), 200, 2000,
     'at least two ratings')
def flixster_pci(case, rec):
    clean()
    write(os.path.join(RAW, 'ratings.txt'),
          [u'%d\t%d\t%.1f' % tuple(r) + (
              u'\t2008-04-05' if case['stamp'] else u'')
           for r in case['ratings']], case['eol'])
    convert('flixster.py', case['explicit'])
    write(os.path.join(SAMPLES, 'pci.event'),
          [u'%s\t%s\t%.1f' % tuple(r) for r in case['people']], case['eol'])
    for fn, name, rows, domain in (
            (ds.load_flixster_rating, 'flixster', case['ratings'],
             (0.5, 5.0, 0.5)),
            (ds.load_pci_sample, 'pci', case['people'], None)):
        path = os.path.join(SAMPLES, name + '.event')
        if case['given'] == 'default':
            data = load(fn)
        else:
            moved = os.path.join(ROOT, 'moved.event')
            os.rename(path, moved)
            if case['given'] == 'path':
                data = load(fn, moved)
            else:
                with open(moved, 'rb') as f:
                    data = load(fn, f)
        check_ratings(data, rows, domain, name)
        if name == 'pci':
            close(data.score_domain[:2], [1, 5], name + ': score domain')
            must(set(data.score) <= set(data.get_score_levels()),
                 name + ': scores are score levels', data.score)
    rec.nt(len(case['ratings']) > 1)
    rec.label('converted to ' + str(case['explicit']))


# -- files of many lines ------------------------------------------------------------

@st.composite
def large_cases(draw):
    return {'kind': draw(st.sampled_from(
        ['movielens100k', 'movielens1m', 'sushi3', 'flixster_pci'])),
        'n': [draw(st.sampled_from([2, 130, 300, 1300, 5000])) for _ in range(2)],
        'ratings': draw(st.sampled_from([300, 4100, 9000, 40000])),
        'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
        'explicit': draw(EXPLICIT),
        'seed': draw(st.integers(0, 10 ** 6))}


def expanded(c):
    """the raw data of a large case, in the form of the cases above"""
    r = np.random.RandomState(c['seed'])

    def num(lo, hi, n=None):
        x = r.randint(lo, hi + 1, n)
        return int(x) if n is None else x.tolist()
    out = {'eol': c['eol'], 'explicit': c['explicit'], 'given': 'path',
           'stamp': bool(c['seed'] % 2)}
    if c['kind'] == 'sushi3':
        nu, ni = c['n'][0], min(c['n'][1], 130)
        rows = np.where(r.rand(nu, ni) < 10.0 / ni,
                        r.randint(0, 5, (nu, ni)), -1)
        rows[0, 0] = 2
        tops = (9999, 1, 5, 5000, 47, 11, 1, 47, 11, 1, 1)
        out['rows'] = rows.tolist()
        out['users'] = [[num(0, t) for t in tops] for _ in range(nu)]
        out['items'] = [[u'sushi_%d' % i, num(0, 1), num(0, 1), num(0, 11)] +
                        [num(0, 4000) / 1000.0 for _ in range(4)]
                        for i in range(ni)]
        out['order'] = r.permutation(ni).tolist()
        return out
    tops = {'movielens100k': (943, 1682), 'movielens1m': (6040, 3952),
            'flixster_pci': (2000000, 2000000)}[c['kind']]
    # the least ids are in the samples of the library
    pool = [np.unique(np.r_[1, r.choice(
        t, min(n, t), replace=False) + 1]).tolist()
        for t, n in zip(tops, c['n'])]
    n = c['ratings']
    u, i = [r.choice(p, n).tolist() for p in pool]
    if c['kind'] == 'flixster_pci':
        out['ratings'] = [[a, b, s / 2.0] for a, b, s in zip(
            u, i, num(1, 10, n))]
        out['people'] = [['user %d' % num(0, 300), 'film %d' % num(0, 300),
                          num(2, 10) / 2.0] for _ in range(500)]
        return out
    out['ratings'] = [list(x) for x in zip(
        u, i, num(1, 5, n), num(0, 2 ** 31 - 1, n))]
    if c['kind'] == 'movielens100k':
        out['users'] = [[k, num(5, 80), 'MF'[num(0, 1)], OCC100K[num(0, 20)],
                         '%05d' % num(0, 99999)] for k in pool[0]]
        out['items'] = [[k, u'film %d' % num(0, 10 ** 6), None if
                         num(0, 9) == 0 else [num(1, 28), num(1, 12),
                                              num(1920, 1999)],
                         '', 'http://x/%d' % k, num(0, 1), num(0, 1, 18)]
                        for k in pool[1]]
    else:
        out['users'] = [[k, 'MF'[num(0, 1)], AGES[num(0, 6)], num(0, 20),
                         '%05d' % num(0, 99999)] for k in pool[0]]
        out['items'] = [[k, u'film %d' % num(0, 10 ** 6), num(1919, 2000),
                         np.unique(num(0, 17, num(1, 4))).tolist()]
                        for k in pool[1]]
    return out


KINDS = {'movielens100k': movielens100k, 'movielens1m': movielens1m,
         'sushi3': sushi3, 'flixster_pci': flixster_pci}


@sub('C07', 'large', large_cases(), 16, 160, 'more than hundred lines')
def large(case, rec):
    KINDS[case['kind']](expanded(case), rec)
    rec.nt()
    rec.label(case['kind'])


# -- all ways to call a converter ---------------------------------------------------

@sub('C07', 'modes', st.integers(0, 10 ** 6), 6, 60,
     'each converter is called in each way')
def modes(case, rec):
    for kind in sorted(KINDS):
        for mode in (False, True, 'elsewhere', 'command', 'relative', 'help'):
            r = np.random.RandomState(case)
            KINDS[kind](expanded({
                'kind': kind, 'n': r.randint(1, 30, 2).tolist(),
                'ratings': int(r.randint(1, 60)), 'eol': '\n',
                'explicit': mode, 'seed': case}), rec)
    rec.nt()
