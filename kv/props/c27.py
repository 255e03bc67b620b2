"""C27: merging folds equals running all folds, and statistics pool them"""
import io
import json
import math
import os
from hypothesis import strategies as st
import numpy as np
from ..core import sub, must, eq, close
from .. import gen
from .. import scripts as s
from .. import stats as q

TIMES = ('start_time', 'end_time', 'elapsed_time', 'elapsed_utime')


# -- merge --------------------------------------------------------------------

def alike(a, b, what):
    """equal values of JSON, numbers up to rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        must(sorted(a) == sorted(b), what + ': entries', sorted(a), sorted(b))
        for k in a:
            alike(a[k], b[k], '%s: %s' % (what, k))
    elif isinstance(a, list) and isinstance(b, list):
        must(len(a) == len(b), what + ': length', len(a), len(b))
        for x, y in zip(a, b):
            alike(x, y, what)
    elif isinstance(a, float) and isinstance(b, float):
        close(a, b, what, rtol=1e-6, atol=1e-9)
    else:
        must(a == b and type(a) is type(b), what, a, b)


def timeless(r):
    return {k: v for k, v in r.items() if k not in TIMES}


def merge(files, out, form, real=False):
    a = list(files) + ['--out' if form == 'long' else '-o', out]
    if form == 'positional':
        a = a[-2:] + a[:-2]
    if form == 'std':
        return s.parse(s.call('exp_recsys_fold_merge', list(files),
                              real=real))
    if form == 'long':
        a.append('-q')
    s.call('exp_recsys_fold_merge', a, real=real)
    return s.read(out)


@st.composite
def merge_cases(draw):
    c = draw(s.cases('cv'))
    if c['rseed'] is None:
        c['rseed'] = 3
    c['one'] = None
    if c['form'] == 'std':
        c['form'] = 'options'
    c['order'] = list(draw(st.permutations(list(range(c['folds'])))))
    if draw(st.integers(0, 3)) == 0:
        c['order'] = c['order'][:draw(st.integers(1, c['folds']))]
    c['machines'] = draw(st.booleans())
    c['mform'] = draw(st.sampled_from(
        ['options', 'long', 'positional', 'std']))
    return c


def merge_check(case, rec, real):
    c = case
    with s.scratch() as d:
        full = s.run(c, d)
        singles, files = {}, []
        for f in c['order']:
            singles[str(f)] = s.run(c, d, one=f)
            files.append(os.path.join(d, 'out-%d.json' % f))
            if c['machines']:
                # as if every fold had been run on a machine of its own
                r = singles[str(f)]
                r['environment']['version']['numpy'] = '1.%d.0' % f
                r['environment']['system']['machine'] = 'm%d' % f
                r['environment']['script']['name'] += str(f)
                r['training']['results'][str(f)]['elapsed_utime'] = f + 0.5
                with io.open(files[-1], 'w') as fp:
                    fp.write(json.dumps(r))
        got = merge(files, os.path.join(d, 'merged.json'), c['mform'], real)
        for f in files:
            must(s.read(f) == singles[str(int(f.split('-')[-1][:-5]))],
                 'merged files are left as they are', f)
    keys = [str(f) for f in c['order']]
    for part in ('training', 'test'):
        must(sorted(got[part]['results']) == sorted(keys),
             'folds of results: ' + part, sorted(got[part]['results']))
        for f in keys:
            alike(timeless(got[part]['results'][f]),
                  timeless(full[part]['results'][f]),
                  'results of %s of fold %s' % (part, f))
            must(got[part]['results'][f] == singles[f][part]['results'][f],
                 'times of the run of a fold', part, f)
        alike({k: v for k, v in got[part].items() if k != 'results'},
              {k: v for k, v in full[part].items() if k != 'results'},
              'data of ' + part)
    p, w = got['prediction'], full['prediction']
    must(sorted(p) == sorted(w), 'predictions', sorted(p), sorted(w))
    for k in w:
        pairs = [(k, p[k], w[k])]
        if k == 'event_feature':
            must(sorted(p[k]) == sorted(w[k]), 'features', sorted(p[k]))
            pairs = [(n, p[k][n], w[k][n]) for n in w[k]]
        for name, x, y in pairs:
            must(sorted(x) == sorted(keys), 'folds of ' + name, sorted(x))
            for f in keys:
                alike(x[f], y[f], '%s of fold %s' % (name, f))
    alike(got['model'], full['model'], 'model')
    alike({k: v for k, v in got['condition'].items()
           if k not in ('out_file', 'merged')},
          {k: v for k, v in full['condition'].items() if k != 'out_file'},
          'conditions')
    must(got['condition'].get('merged') is True, 'mark of a merge',
         got['condition'])
    env = got['environment']['environment_fold']
    must(sorted(env) == sorted(keys), 'environment of folds', sorted(env))
    for f in keys:
        must(env[f] == singles[f]['environment'], 'environment of a fold', f)
    rec.nt(len(keys) > 1 and len(set(
        str(sorted(w['mask'][f])) for f in keys)) > 1)
    rec.label('in another order', c['order'] != sorted(c['order']))
    rec.label('not all folds', len(keys) < c['folds'])
    rec.label('folds of different machines', c['machines'])
    rec.label('more than ten folds', c['folds'] > 10)
    rec.label(c['method'])


RULE = 'more than one fold is merged, and test sets differ'


@sub('C27', 'merge', merge_cases(), 150, 1200, RULE)
def merges(case, rec):
    merge_check(case, rec, False)


# -- statistics ---------------------------------------------------------------

def mean_sd(v):
    m = math.fsum(v) / len(v)
    return m, math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


def near(got, want, what, scale=1.0):
    close(got, want, what, rtol=1e-9, atol=1e-9 * max(scale, 1e-3))


def check_stats(got, task, true, pred, levels):
    sc = max(abs(x) for x in true + pred)
    must(got['n_samples'] == len(true), 'number of pooled events',
         got['n_samples'], len(true))
    for name, v in (('true', true), ('predicted', pred)):
        m, sd = mean_sd(v)
        near(got[name]['mean'], m, 'mean: ' + name, sc)
        near(got[name]['stdev'], sd, 'stdev: ' + name, sc)
    if task == 'item_finder':
        pos = [p for t, p in zip(true, pred) if t == 1]
        neg = [p for t, p in zip(true, pred) if t == 0]
        if pos and neg:
            auc = sum(1.0 if a > b else 0.5 if a == b else 0.0
                      for a in pos for b in neg) / (len(pos) * len(neg))
            near(got['area under the curve'], auc, 'AUC')
        else:
            must('area under the curve' not in got, 'no AUC', got)
        return
    err = [abs(t - p) for t, p in zip(true, pred)]
    m, sd = mean_sd(err)
    near(got['mean absolute error']['mean'], m, 'MAE', sc)
    near(got['mean absolute error']['stdev'], sd, 'MAE stdev', sc)
    m, sd = mean_sd([e * e for e in err])
    near(got['mean squared error']['mean'], m, 'MSE', sc * sc)
    near(got['mean squared error']['stdev'], sd, 'MSE stdev', sc * sc)
    near(got['mean squared error']['rmse'], math.sqrt(m), 'RMSE', sc)
    if levels is None:
        return
    close(got['score levels'], levels, 'score levels', rtol=1e-9, atol=1e-9)
    mids = [(a + b) / 2 for a, b in zip(levels, levels[1:])]
    for name, v in (('true', true), ('predicted', pred)):
        h = got[name]['histogram']
        must(len(h) == len(levels) and sum(h) == len(v), 'histogram', h)
        # scores next to a boundary may belong to both levels
        eps = 1e-9 * (1 + sc)
        for i in range(len(mids)):
            lo = sum(1 for x in v if x < mids[i] - eps)
            hi = sum(1 for x in v if x < mids[i] + eps)
            must(lo <= sum(h[:i + 1]) <= hi, 'histogram of ' + name, h, i,
                 lo, hi)
        near(got[name]['histogram density'], [x / float(len(v)) for x in h],
             'density of ' + name)


def stats(path, out, keep, form, real=False):
    a, stdin = [], None
    if form == 'std':
        stdin = path
    elif form == 'positional':
        a = [path, out]
    elif form == 'long':
        a = ['--in', path, '--out', out]
    else:
        a = ['-i', path, '-o', out]
    if keep:
        a.append('--keepdata')
    elif keep is False:
        a.append('--no-keepdata')
    text = s.call('stats_recsys', a, stdin, real)
    if form == 'std':
        return s.parse(text)
    must(text == '', 'nothing is output elsewhere', text)
    return s.read(out)


def check_output(got, info, keep):
    rest = dict(got)
    rest.pop('statistics')
    want = dict(info)
    if not keep:
        want.pop('prediction')
    must(rest == want, 'the rest of a record is kept', rest, want)


def pooled(info):
    p = info['prediction']
    if not isinstance(p['true'], dict):
        return list(p['true']), list(p['predicted'])
    t, v = [], []
    for f in p['true']:
        t += p['true'][f]
        v += p['predicted'][f]
    return t, v


def estimated_levels(dom):
    """None if estimated levels are not at regular intervals"""
    n = int(round((dom[1] - dom[0]) / dom[2])) + 1
    if abs((n - 1) * dom[2] - (dom[1] - dom[0])) > 1e-6 * dom[2]:
        return None
    return [dom[0] + i * (dom[1] - dom[0]) / (n - 1) for i in range(n)]


keeps = st.sampled_from([None, True, False, True])
sforms = st.sampled_from(['options', 'long', 'positional', 'std'])


@st.composite
def record_cases(draw):
    task = draw(st.sampled_from(['score_predictor', 'item_finder']))
    c = {'task': task, 'domain': draw(gen.domains(max_levels=9)),
         'keep': draw(keeps), 'form': draw(sforms)}
    n = c['domain']['n']
    folds = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 12]))
    c['folds'] = None if folds == 0 else list(draw(st.permutations(
        list(range(folds)))))
    c['true'], c['pred'] = [], []
    top = 1 if task == 'item_finder' else n - 1
    for _ in range(max(folds, 1)):
        k = draw(st.integers(1, 6))
        c['true'].append(draw(st.lists(st.integers(0, top), min_size=k,
                                       max_size=k)))
        c['pred'].append(draw(st.lists(
            st.integers(-8, 8 * n + 4), min_size=k, max_size=k)))
    c['extra'] = draw(st.booleans())
    return c


@sub('C27', 'statistics', record_cases(), 1000, 8000,
     'different scores of more than one fold are pooled')
def statistics(case, rec):
    c = case
    lev = gen.levels_of(c['domain'])
    item = c['task'] == 'item_finder'
    gap = lev[1] - lev[0]
    true = [[float(i) if item else lev[i] for i in r] for r in c['true']]
    pred = [[lev[0] + gap * v / 8.0 for v in r] for r in c['pred']]
    if item:
        true = [[int(v) for v in r] for r in true]
        pred = [[1 / (1 + math.exp(-v / 4.0)) for v in r] for r in c['pred']]
    ev = [[[j, 3 * j] for j in range(len(r))] for r in true]
    p = {'event': ev, 'true': true, 'predicted': pred}
    if c['extra']:
        p['event_feature'] = {'timestamp': [
            list(range(len(r))) for r in true]}
    if c['folds'] is None:
        p = {k: v[0] for k, v in p.items() if k != 'event_feature'}
        if c['extra']:
            p['event_feature'] = {'timestamp': list(range(len(true[0])))}
    else:
        if c['extra']:
            p['mask'] = ev
        p = {k: ({str(f): v[f] for f in c['folds']}
                 if k != 'event_feature' else
                 {n: {str(f): x[f] for f in c['folds']}
                  for n, x in v.items()}) for k, v in p.items()}
    info = {'condition': {'score_domain': list(gen.triple_of(c['domain'])),
                          'scheme': 'cv', 'n_folds': 5},
            'model': {'task_type': c['task'], 'options': {'k': 1}},
            'environment': {'a': [1, 'x', {'b': 0.1}]},
            'training': {'results': {'0': {'x': [1.5, None]}}}, 'test': {},
            'prediction': p}
    with s.scratch() as d:
        path, out = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with io.open(path, 'w') as f:
            f.write(json.dumps(info))
        got = stats(path, out, c['keep'], c['form'])
        must(s.read(path) == info, 'the input file is left as it is')
    check_output(got, info, c['keep'])
    t, v = sum(true, []), sum(pred, [])
    check_stats(got['statistics'], c['task'], t, v, lev)
    rec.nt(c['folds'] is not None and len(c['folds']) > 1 and
           len(set(v)) > 1)
    rec.label(c['task'])
    rec.label('predictions kept', bool(c['keep']))
    rec.label('without folds', c['folds'] is None)
    rec.label('one class', item and len(set(t)) == 1)


@st.composite
def chain_cases(draw):
    c = draw(st.one_of(merge_cases(), s.cases('holdout')))
    if c['rseed'] is None:
        c['rseed'] = 4
    c['keep'] = draw(keeps)
    c['sform'] = draw(sforms)
    if c['form'] == 'std':
        c['form'] = 'options'
    return c


def chain_check(case, rec, real):
    """statistics of what an experiment recorded"""
    c = case
    with s.scratch() as d:
        out = os.path.join(d, 'stats.json')
        if c['scheme'] == 'holdout':
            s.run(c, d, real=real)
            path = os.path.join(d, 'out-None.json')
        elif c['order'] == sorted(c['order']) and len(
                c['order']) == c['folds']:
            s.run(c, d, real=real)
            path = os.path.join(d, 'out-None.json')
        else:
            files = []
            for f in c['order']:
                s.run(c, d, one=f, real=real)
                files.append(os.path.join(d, 'out-%d.json' % f))
            path = files[0]
            if len(files) > 1:
                path = os.path.join(d, 'merged.json')
                merge(files, path, 'options', real)
        info = s.read(path)
        got = stats(path, out, c['keep'], c['sform'], real)
    check_output(got, info, c['keep'])
    t, v = pooled(info)
    task = 'item_finder' if c['method'] == 'lpmf' else 'score_predictor'
    check_stats(got['statistics'], task, t, v,
                estimated_levels(s.domain(c)))
    rec.nt(len(set(v)) > 1 and len(set(t)) > 1)
    rec.label('merged', path.endswith('merged.json'))
    rec.label(c['method'])
    rec.label(c['scheme'])


@sub('C27', 'chain', chain_cases(), 200, 1600,
     'there are different true scores and predictions')
def chain(case, rec):
    chain_check(case, rec, False)


@st.composite
def command_cases(draw):
    c = draw(chain_cases())
    if c['scheme'] == 'cv' and c['folds'] > 2:
        c['folds'], c['defaults'] = 2, False
        c['order'] = draw(st.sampled_from([[0, 1], [1, 0], [1, 0]]))
    return c


@sub('C27', 'commands', command_cases(), 2, 20,
     'there are different true scores and predictions')
def commands(case, rec):
    chain_check(case, rec, True)


@st.composite
def large_cases(draw):
    c = draw(s.large_cases('cv', ('pmf', 'plsam', 'lpmf')))
    c['rseed'] = c['rseed'] or 3
    c['one'] = None
    if c['form'] == 'std':
        c['form'] = 'options'
    c['order'] = list(draw(st.permutations(list(range(c['folds'])))))
    c['keep'] = draw(keeps)
    c['sform'] = draw(sforms)
    return c


@sub('C27', 'large', large_cases(), 6, 60,
     'there are different true scores and predictions')
def large(case, rec):
    chain_check(case, rec, False)
