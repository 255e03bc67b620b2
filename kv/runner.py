"""
Runs the sub-checks of one property, writes evidence and replay files.

exit 0: the property held on everything explored
exit 1: it is broken, `VIOLATION property=<id> replay=<path>` is printed
exit 2: error of the check
"""
import collections
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib
import traceback
import zipfile

HOME = os.environ.get('KV_HOME') or os.path.dirname(
    os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
LIB = os.path.join(HOME, '.lib')


# -- vendored Hypothesis -----------------------------------------------------

def ensure_lib():
    """unpack the vendored wheels once, atomically"""
    wheels = sorted(
        os.path.join(HOME, 'vendor', f)
        for f in os.listdir(os.path.join(HOME, 'vendor'))
        if f.endswith('.whl'))
    h = hashlib.sha256()
    for w in wheels:
        with open(w, 'rb') as f:
            h.update(f.read())
    target = os.path.join(LIB, h.hexdigest()[:16])
    if not os.path.isdir(target):
        try:
            os.makedirs(LIB, exist_ok=True)
            tmp = tempfile.mkdtemp(prefix='tmp-', dir=LIB)
        except OSError:
            tmp = tempfile.mkdtemp(prefix='kv-lib-')
            target = tmp + '/lib'
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, target)
        except OSError:
            if os.path.isdir(target):
                shutil.rmtree(tmp, ignore_errors=True)
            else:
                target = tmp
    sys.path.insert(0, target)
    return target


class Violation(Exception):
    def __init__(self, sub, case, mode, err, tb):
        Exception.__init__(self, err)
        self.sub, self.case, self.mode = sub, case, mode
        self.err, self.tb = err, tb


HARNESS_ERRORS = (MemoryError, KeyboardInterrupt, SystemError, OSError)


def touches_repo(e):
    tb = e.__traceback__
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            return True
        tb = tb.tb_next
    return False


def is_violation(e):
    """is this exception of a check body a verdict about the code?"""
    from .core import Fail
    if isinstance(e, Fail) or touches_repo(e):
        return True
    # the oracle could not interpret what the code returned
    return not isinstance(e, HARNESS_ERRORS)


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.truncated = False


CASE_CPU_SECONDS = 120.0


def spinning(signum, frame):
    from .core import Fail
    raise Fail('no end after %g seconds of processor time' %
               CASE_CPU_SECONDS)


def run_case(sub, case):
    from .core import Rec
    rec = Rec()
    # cases are handed over as they would be read back from a replay file
    case = json.loads(json.dumps(case))
    # a case takes some seconds at most: code that spins is a failure, too
    signal.signal(signal.SIGPROF, spinning)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    start = time.process_time()
    try:
        sub.fn(case, rec)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        spent = time.process_time() - start
        if spent > float(os.environ.get('KV_SLOW', 'inf')):
            print('slow: %s %.1f %s' % (sub.name, spent, json.dumps(case)))
    return rec


def campaign(sub, n, seed, deadline):
    """drive one sub-check; returns Stats or raises Violation"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import errors as herr
    from .core import canon

    st = Stats()
    state = {'fail': None, 'err': None}

    def body(case):
        if state['fail'] is None and time.time() > deadline:
            st.truncated = True
            return
        try:
            rec = run_case(sub, case)
        except Exception as e:
            state['fail'], state['err'] = case, e
            raise
        if state['fail'] is None:
            st.evaluations += 1
            h = hashlib.md5(canon(case).encode()).digest()[:10]
            if h not in st.distinct:
                st.distinct.add(h)
                for x in rec.labels:
                    st.labels[x] += 1
                if rec.nontrivial:
                    st.nontrivial.add(h)
                    if len(st.samples) < 2 or (
                            len(st.samples) < 4 and
                            len(st.nontrivial) % 97 == 0):
                        st.samples.append(case)

    test = settings(
        max_examples=n, database=None, deadline=None,
        phases=((Phase.generate,) if os.environ.get('KV_NOSHRINK') else
                (Phase.generate, Phase.shrink)),
        suppress_health_check=list(HealthCheck), print_blob=False,
        report_multiple_bugs=False)(given(sub.strategy)(body))
    # sub-checks with the same strategy explore different cases
    test = hypothesis.seed(
        seed + 7919 * (zlib.crc32(sub.name.encode()) % 100003))(test)

    try:
        test()
    except BaseException as e:
        if state['fail'] is None:
            raise
        err = state['err']
        if not is_violation(err):
            raise err
        # confirm; a failure that depends on the history of the process is
        # replayed as the whole campaign
        mode = 'case'
        if isinstance(e, (herr.Flaky,)):
            try:
                run_case(sub, state['fail'])
                mode = 'campaign'
            except Exception as e2:
                err = e2
        raise Violation(sub, state['fail'], mode, err,
                        ''.join(traceback.format_exception(
                            type(err), err, err.__traceback__)))
    return st


def load_prop(pid):
    from . import core
    try:
        importlib.import_module('kv.props.' + pid.lower())
    except Exception as e:
        if touches_repo(e):
            raise Violation(None, None, 'import', e, traceback.format_exc())
        raise
    return core.SUBS[pid]


def tune_engine():
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 60


def write_replay(pid, v, seed, tier):
    d = os.path.join(HOME, 'replays')
    os.makedirs(d, exist_ok=True)
    name = v.sub.name if v.sub is not None else 'import'
    path = os.path.join(d, '%s-%s.json' % (pid, name))
    with io.open(path, 'w', encoding='utf-8') as f:
        f.write(json.dumps({
            'property': pid, 'sub': name, 'mode': v.mode, 'seed': seed,
            'tier': tier, 'case': v.case, 'error': str(v.err)[:2000],
            'error_type': type(v.err).__name__,
            'traceback': v.tb[-4000:]}, indent=1, sort_keys=True))
    return path


def write_evidence(pid, tier, seed, cov, wall, violations):
    path = os.path.join(HOME, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': [
              'numpy, scipy, scikit-learn and Python as installed in '
              '/opt/venv are right',
              'single process; no concurrent use of one object'],
          'wall_s': round(wall, 3), 'violations': violations}
    tmp = path + '.tmp%d' % os.getpid()
    with io.open(tmp, 'w', encoding='utf-8') as f:
        f.write(json.dumps(ev, indent=1))
    os.replace(tmp, path)


def coverage_of(results):
    """results: list of (Sub, Stats)"""
    by = collections.OrderedDict()
    for s, st in results:
        d = by.setdefault(s.name, dict(
            evaluations=0, distinct=0, nontrivial=0,
            labels=collections.Counter(), rule=s.rule, truncated=False))
        d['evaluations'] += st.evaluations
        d['distinct'] += len(st.distinct)
        d['nontrivial'] += len(st.nontrivial)
        d['labels'].update(st.labels)
        d['truncated'] = d['truncated'] or st.truncated
    for d in by.values():
        d['labels'] = dict(sorted(d['labels'].items()))
    samples = []
    for s, st in results:
        for c in st.samples[:1]:
            samples.append({'sub_check': s.name, 'case': c})
    rule = ('Hypothesis generates cases for each sub-check (seeded with '
            'VERIF_SEED); a case is distinct by its JSON text and non-trivial '
            'by: ' + '; '.join(
                '[%s] %s' % (k, d['rule']) for k, d in by.items()))
    return {'evaluations': sum(d['evaluations'] for d in by.values()),
            'distinct_nontrivial': sum(d['nontrivial'] for d in by.values()),
            'rule': rule, 'samples': samples[:12],
            'sub_checks': by}


def load_known(pid):
    with io.open(os.path.join(HOME, 'known_findings.json'),
                 encoding='utf-8') as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def run_shards(pid, tier, seed, n):
    """thorough tier: independent seeds in separate processes"""
    procs = []
    for i in range(n):
        out = tempfile.NamedTemporaryFile(
            prefix='kv-shard-', suffix='.json', delete=False)
        out.close()
        env = dict(os.environ, KV_SHARD=str(i), KV_SHARD_OUT=out.name,
                   VERIF_SEED=str(seed), VERIF_TIER=tier)
        p = subprocess.Popen(
            [sys.executable, '-B', '-X', 'pycache_prefix=/nonexistent/kv',
             '-m', 'kv.runner', pid], env=env, cwd=HOME,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        procs.append((p, out.name))
    rc, cov = 0, None
    for p, out in procs:
        text = p.communicate()[0].decode('utf-8', 'replace')
        sys.stdout.write('\n'.join(
            x for x in text.splitlines()
            if rc != 1 or not x.startswith('VIOLATION')) + '\n')
        if p.returncode == 1:
            rc = 1
        elif p.returncode != 0 and rc == 0:
            rc = 2
        try:
            with io.open(out, encoding='utf-8') as f:
                c = json.load(f)
            if cov is None:
                cov = c
            else:
                cov['evaluations'] += c['evaluations']
                cov['distinct_nontrivial'] += c['distinct_nontrivial']
                for k, d in c['sub_checks'].items():
                    if k not in cov['sub_checks']:
                        cov['sub_checks'][k] = d
                        continue
                    e = cov['sub_checks'][k]
                    for f in ('evaluations', 'distinct', 'nontrivial'):
                        e[f] += d[f]
                    for lab, m in d['labels'].items():
                        e['labels'][lab] = e['labels'].get(lab, 0) + m
        except (OSError, ValueError):
            pass
        os.unlink(out)
    if cov is not None:
        cov['shards'] = n
        cov['note'] = ('counts are summed over %d shards with different '
                       'seeds; a case may recur in two shards' % n)
    return rc, cov


def main(argv):
    sys.path[:] = [p for p in sys.path if p not in ('',)]
    ensure_lib()
    if argv[:1] == ['--setup']:
        import hypothesis
        import kamrecsys
        print('hypothesis', hypothesis.__version__, 'kamrecsys from',
              os.path.dirname(kamrecsys.__file__))
        return 0
    if argv[:1] == ['--list']:
        for f in sorted(os.listdir(os.path.join(HOME, 'kv', 'props'))):
            if f.startswith('c') and f.endswith('.py'):
                print(f[:-3].upper())
        return 0
    if not argv:
        print(__doc__)
        return 2

    pid = argv[0].upper()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()

    import kamrecsys
    if not os.path.realpath(kamrecsys.__file__).startswith(
            os.path.realpath(REPO) + os.sep):
        print('kamrecsys is imported from the wrong place:',
              kamrecsys.__file__)
        return 2
    tune_engine()
    shard = os.environ.get('KV_SHARD')

    # replay ---------------------------------------------------------------
    if len(argv) >= 3 and argv[1] == '--replay':
        with io.open(argv[2], encoding='utf-8') as f:
            r = json.load(f)
        try:
            subs = load_prop(pid)
            s = [s for s in subs if s.name == r['sub']][0] \
                if r['mode'] != 'import' else None
            if r['mode'] == 'case':
                run_case(s, r['case'])
            elif r['mode'] == 'campaign':
                campaign(s, getattr(s, r['tier']), r['seed'],
                         time.time() + 3600)
        except Exception as e:
            if isinstance(e, Violation) or is_violation(e):
                print(e)
                print('VIOLATION property=%s replay=%s' % (pid, argv[2]))
                return 1
            raise
        print('replay: the property holds on this case')
        return 0

    if tier == 'thorough' and shard is None:
        jobs = int(os.environ.get('KV_JOBS', '8'))
        rc, cov = run_shards(pid, tier, seed, jobs)
        if cov is None:
            return rc or 2
        write_evidence(pid, tier, seed, cov, time.time() - t0,
                       1 if rc == 1 else 0)
        if rc == 0:
            print('OK property=%s evaluations=%d nontrivial=%d %.1fs' % (
                pid, cov['evaluations'], cov['distinct_nontrivial'],
                time.time() - t0))
        return rc

    base_seed = seed if shard is None else seed * 1000 + 17 + int(shard)
    budget = float(os.environ.get(
        'KV_BUDGET', '600' if tier == 'quick' else '780'))
    results = []
    violation = None
    try:
        subs = load_prop(pid)
        only = os.environ.get('KV_SUB')
        if only:
            subs = [s for s in subs if s.name in only.split(',')]
        for s in subs:
            t1 = time.time()
            st = campaign(s, getattr(s, tier), base_seed, t0 + budget)
            results.append((s, st))
            if os.environ.get('KV_VERBOSE'):
                print('  %-28s %6d evals %6d nontrivial %6.1fs %s' % (
                    s.name, st.evaluations, len(st.nontrivial),
                    time.time() - t1, dict(st.labels)))
    except Violation as v:
        violation = v

    for k in load_known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    if violation is not None and violation.sub is not None:
        st = Stats()
        st.evaluations = 1
        st.samples = [violation.case]
        results.append((violation.sub, st))
    cov = coverage_of(results)
    if shard is None:
        write_evidence(pid, tier, seed, cov, time.time() - t0,
                       0 if violation is None else 1)
    else:
        with io.open(os.environ['KV_SHARD_OUT'], 'w', encoding='utf-8') as f:
            f.write(json.dumps(cov))
    if violation is not None:
        path = write_replay(pid, violation, base_seed, tier)
        print('[%s] %s: %s' % (
            violation.sub.name if violation.sub else 'import',
            type(violation.err).__name__, str(violation.err)[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if shard is None:
        print('OK property=%s evaluations=%d nontrivial=%d %.1fs' % (
            pid, cov['evaluations'], cov['distinct_nontrivial'],
            time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    _d = os.environ.get('HYPOTHESIS_STORAGE_DIRECTORY', '')
    if _d.startswith('/tmp/kv-hyp-'):
        shutil.rmtree(_d, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
