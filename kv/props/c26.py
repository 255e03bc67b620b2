"""C26: experiment scripts record what was really trained and tested"""
import datetime
import json
import math
import os
from hypothesis import strategies as st
import numpy as np
from ..core import sub, must, eq, close, raises
from .. import models as m
from .. import scripts as s

TOP = ['condition', 'environment', 'model', 'prediction', 'test', 'training']


def now():
    return datetime.datetime.now()


def moment(x, what):
    try:
        return datetime.datetime.strptime(
            x if '.' in x else x + '.0', '%Y-%m-%dT%H:%M:%S.%f')
    except (TypeError, ValueError):
        must(False, what + ' is not a time', x)


def seconds(x):
    """an elapsed time: number, or [days, ]hours:minutes:seconds"""
    if isinstance(x, (int, float)):
        return float(x)
    must(isinstance(x, str) and x.count(':') == 2, 'an elapsed time', x)
    h, mi, se = x.split(':')
    return int(h) * 3600 + int(mi) * 60 + float(se)


def check_times(r, begin, end, what):
    a = moment(r['start_time'], what)
    b = moment(r['end_time'], what)
    must(begin <= a <= b <= end, what + ': the time of the run', begin, a, b,
         end)
    must(abs(seconds(r['elapsed_time']) - (b - a).total_seconds()) < 2e-6,
         what + ': elapsed time', r['elapsed_time'], a, b)
    must(isinstance(r['elapsed_utime'], (int, float)) and
         0 <= r['elapsed_utime'] <= 60, what + ': elapsed user time',
         r['elapsed_utime'])
    # no more than all processors can do meanwhile
    must(r['elapsed_utime'] <= 0.5 + (os.cpu_count() or 1) * (
        b - a).total_seconds(), what + ': elapsed user time',
        r['elapsed_utime'], a, b)
    return a, b


def check_fit(r, rec, what):
    """what the optimizer reports is there"""
    if rec is None:
        return
    for k, v in json.loads(json.dumps(m.plain_value(rec.fit_results_),
                                      default=str)).items():
        must(k in r, what + ': fitting results', k)
        if isinstance(v, float):
            close(r[k], v, what + ': ' + k, rtol=1e-6)
        elif v is None or isinstance(v, (dict, list)):
            must(r[k] is not None, what + ': ' + k, r[k])
        elif isinstance(v, str):
            must(r[k] == v or v in r[k] or v == 'None', what + ': ' + k,
                 r[k], v)
        else:
            must(r[k] == v, what + ': ' + k, r[k], v)


def check_record(c, info, d, n_folds):
    must(sorted(info) == TOP, 'sections of a record', sorted(info))
    cls = s.METHODS[c['method']][1]
    cond = info['condition']
    if c['form'] != 'std':
        must(d in cond['out_file'], 'name of the output file', cond)
        must('train.event' in info['training']['file'] and
             d in info['training']['file'], 'name of the training file',
             info['training']['file'])
    close(cond['score_domain'], s.domain(c), 'score domain', rtol=1e-12)
    must(cond['has_timestamp'] is c['stamp'], 'timestamps', cond)
    must(cond['explicit_rating'] is True, 'explicit ratings', cond)
    must(cond['scheme'] == c['scheme'], 'scheme', cond)
    must(cond['n_folds'] == n_folds, 'number of folds', cond)
    env = info['environment']
    must(env['script']['name'] == s.METHODS[c['method']][0] + '.py',
         'name of the script', env['script'])
    must(isinstance(env['script']['version'], str), 'version', env['script'])
    must(isinstance(env['system'], dict) and
         isinstance(env['version']['kamrecsys'], str), 'environment', env)
    import platform
    for k in ('system', 'release', 'machine'):
        must(env['system'][k] == getattr(platform, k)(),
             'record of the system: ' + k, env['system'][k])
    must('node' not in env['system'] and isinstance(
        env['system']['hardware'], list), 'record of the system',
        sorted(env['system']))
    import numpy
    import scipy
    import sklearn
    import kamrecsys
    for k, v in (('numpy', numpy.__version__), ('scipy', scipy.__version__),
                 ('sklearn', sklearn.__version__),
                 ('python', platform.python_version()),
                 ('kamrecsys', kamrecsys.__version__)):
        must(env['version'][k] == v, 'version of ' + k, env['version'], v)
    mod = info['model']
    opts = dict(mod['options'])
    if opts.get('random_state', 0) is None:
        opts['random_state'] = 'None'
    must(opts == s.options(c), 'options of a model', opts, s.options(c))
    must((mod['name'], mod['module']) == (cls.__name__, cls.__module__),
         'class of the model', mod)
    must(mod['task_type'] == ('item_finder' if c['method'] == 'lpmf' else
                              'score_predictor'), 'type of the task', mod)
    must(mod['explicit_ratings'] is True, 'explicit ratings', mod)
    must(isinstance(mod['method'], str) and mod['method'], 'method', mod)
    tr = info['training']
    must((tr['n_events'], tr['n_users'], tr['n_items']) ==
         counts(c['rows']), 'sizes of the training data', tr)


def counts(rows):
    return (len(rows), len(set(r[0] for r in rows)),
            len(set(r[1] for r in rows)))


def check_predictions(got, c, train, test, what):
    rec = s.trained(c, train)
    want = [float(rec.predict(np.array(r[:2]))) for r in test]
    must(isinstance(got, list), what + ': predictions', got)
    if c['rseed'] is None:
        must(len(got) == len(want) and all(
            isinstance(x, float) and math.isfinite(x) for x in got),
            what + ': predictions', got)
        return None, want
    close(got, want, what + ': predictions', rtol=1e-6, atol=1e-9)
    return rec, want


def check_events(p, key, rows, c, what):
    get = (lambda x: x) if key is None else (lambda x: x[key])
    eq(get(p['event']), s.ids(rows), what + ': events')
    eq(get(p['true']), s.scores(c, rows), what + ': true scores')
    if c['stamp']:
        must(sorted(p['event_feature']) == ['timestamp'],
             what + ': features of events', p['event_feature'])
        eq(get(p['event_feature']['timestamp']), [r[3] for r in rows],
           what + ': timestamps')
    else:
        must('event_feature' not in p, what + ': no features', p)


def same_class(c, rows):
    return c['method'] == 'lpmf' and len(set(s.scores(c, rows))) == 1


def holdout_check(case, rec, real):
    c = case
    with s.scratch() as d:
        t0 = now()
        info = s.run(c, d, real=real)
        t1 = now()
        check_record(c, info, d, 1)
        te, p = info['test'], info['prediction']
        must(d in te['file'] and 'test.event' in te['file'],
             'name of the test file', te['file'])
        must((te['n_events'], te['n_users'], te['n_items']) ==
             counts(c['test']), 'sizes of the test data', te)
        check_events(p, None, c['test'], c, 'hold-out')
        must('mask' not in p, 'no masks', sorted(p))
        r, want = check_predictions(
            p['predicted'], c, c['rows'], c['test'], 'hold-out')
        for part in ('training', 'test'):
            must(list(info[part]['results']) == ['0'], 'results of one run',
                 part, list(info[part]['results']))
        a = info['training']['results']['0']
        b = te['results']['0']
        ta = check_times(a, t0, t1, 'training')
        tb = check_times(b, t0, t1, 'test')
        must(ta[1] <= tb[0], 'a test follows training', ta, tb)
        check_fit(a, r, 'training')
        must(b['n_events'] == len(c['test']), 'tested events', b)
        rec.nt(len(set(want)) > 1 and len(set(s.scores(c, c['test']))) > 1)
        rec.label('unknown objects', bool(
            set(x[0] for x in c['test']) - set(x[0] for x in c['rows'])))
        rec.label('domain estimated', c['auto'])
        rec.label('one test event', len(c['test']) == 1)
        rec.label(c['method'])
        rec.label('standard input and output', c['form'] == 'std')


def cv_check(case, rec, real):
    c = case
    with s.scratch() as d:
        t0 = now()
        info = s.run(c, d, one=c['one'], real=real)
        t1 = now()
        check_record(c, info, d, c['folds'])
        rows = c['rows']
        te, p = info['test'], info['prediction']
        must(te['file'] == info['training']['file'], 'name of the test file',
             te['file'])
        must((te['n_events'], te['n_users'], te['n_items']) == counts(rows),
             'sizes of the test data', te)
        folds = list(range(c['folds'])) if c['one'] is None else [c['one']]
        keys = [str(f) for f in folds]
        for x, what in (
                (info['training']['results'], 'training'),
                (te['results'], 'test'), (p['event'], 'events'),
                (p['true'], 'true'), (p['predicted'], 'predicted'),
                (p['mask'], 'masks')):
            must(sorted(x) == sorted(keys), 'folds of ' + what, sorted(x))
        if c['stamp']:
            must(sorted(p['event_feature']['timestamp']) == sorted(keys),
                 'folds of features', p['event_feature'])
        by_user = {}
        for i, r in enumerate(rows):
            by_user.setdefault(r[0], []).append(i)
        last = t0
        masks = []
        for f in keys:
            what = 'fold ' + f
            mask = p['mask'][f]
            must(len(set(mask)) == len(mask) and
                 all(isinstance(i, int) and 0 <= i < len(rows)
                     for i in mask), what + ': mask', mask)
            masks.append(tuple(sorted(mask)))
            for u, idx in by_user.items():
                n = sum(1 for i in mask if i in idx)
                must(n == math.ceil(0.2 * len(idx)), what + ': 20% of the '
                     'ratings of every user', u, n, len(idx))
            test = [rows[i] for i in mask]
            train = [r for i, r in enumerate(rows) if i not in set(mask)]
            check_events(p, f, test, c, what)
            r, want = check_predictions(
                p['predicted'][f], c, train, test, what)
            a, b = info['training']['results'][f], te['results'][f]
            ta = check_times(a, last, t1, what)
            tb = check_times(b, ta[1], t1, what)
            last = tb[1]
            check_fit(a, r, what)
            must(b['n_events'] == len(test), what + ': tested events', b)
            rec.nt(len(set(want)) > 1)
        ways = 1
        for idx in by_user.values():
            ways *= math.comb(len(idx), math.ceil(0.2 * len(idx)))
        if ways > 10 ** 9:
            must(len(set(masks)) == len(masks), 'folds are different', masks)
            rec.label('folds compared', len(masks) > 1)
        rec.label('one fold', c['one'] is not None)
        rec.label('domain estimated', c['auto'])
        rec.label(c['method'])
        rec.label('more than ten folds', c['folds'] > 10)


RULE = 'predictions of a test set differ'


@sub('C26', 'holdout', s.cases('holdout'), 500, 4000, RULE)
def holdout(case, rec):
    holdout_check(case, rec, False)


@sub('C26', 'cv', s.cases('cv'), 300, 2500, RULE)
def cv(case, rec):
    cv_check(case, rec, False)


@sub('C26', 'commands', st.one_of(s.cases('holdout'), s.cases('cv')), 6, 50,
     RULE)
def commands(case, rec):
    """the same with a command run in a process of its own"""
    (holdout_check if case['scheme'] == 'holdout' else cv_check)(
        case, rec, True)


@st.composite
def wrong_cases(draw):
    c = draw(st.one_of(s.cases('holdout'), s.cases('cv')))
    if c['scheme'] == 'holdout':
        c['test'] = None
    else:
        c['one'] = draw(st.one_of(
            st.integers(c['folds'], c['folds'] + 5), st.integers(-5, -1)))
    return c


@sub('C26', 'illegal', wrong_cases(), 60, 600,
     'a fold number is just out of range, or there is no test file')
def illegal(case, rec):
    """nothing is recorded if the test cannot be done"""
    c = case
    with s.scratch() as d:
        script, args, stdin, out = s.arguments(c, d, c.get('one'))
        text = s.call(script, args, stdin, fails=True)
        if out is not None:
            with open(out) as f:
                text += f.read()
        must(text == '', 'nothing is recorded', text)
        rec.nt(c['scheme'] == 'holdout' or c['one'] in (-1, c['folds']))


@sub('C26', 'large', st.one_of(s.large_cases('holdout'), s.large_cases('cv')),
     8, 80, RULE)
def large(case, rec):
    (holdout_check if case['scheme'] == 'holdout' else cv_check)(
        case, rec, False)
