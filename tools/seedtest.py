#!/usr/bin/env python3
"""
Tries planted bugs: tools/seedtest.py [-c] [ID...]

For every /verif/seeded/<ID>: in a scratch copy of /repo, the demonstration
must pass; with the patch the project must build, its stable tests pass and
the demonstration fail.  With -c, the check of the property is run on the
patched copy as well (KV_REPO).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def tests(copy):
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    rc, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
                 '--continue-on-collection-errors --tb=no -rp kamrecsys',
                 copy, env)
    return set(x.split(' ')[1] for x in out.splitlines()
               if x.startswith('PASSED '))


def one(pid, check, base):
    d = os.path.join(HOME, 'seeded', pid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed-')
    copy = os.path.join(tmp, 'repo')
    demo = os.path.join(tmp, 'demo')
    msgs = []
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        shutil.copytree(d, demo)
        env = dict(os.environ, HOME='/root')
        rc, out = sh('bash %s/demo.sh' % demo, copy, env, 300)
        if rc:
            msgs.append('DEMO FAILS UNPATCHED: ' + out[-500:])
        rc, out = sh('git apply %s/patch.diff' % d, copy)
        if rc:
            return pid, ['PATCH: ' + out]
        rc, out = sh('/opt/venv/bin/python -B -m compileall -q kamrecsys '
                     'scripts data -d x', copy)
        if rc:
            msgs.append('COMPILE ' + out[-300:])
        sh('find . -name __pycache__ -prune -exec rm -rf {} +', copy)
        lost = base - tests(copy)
        if lost:
            msgs.append('TESTS CATCH IT: %s' % sorted(lost))
        rc, out = sh('bash %s/demo.sh' % demo, copy, env, 300)
        if rc == 0:
            msgs.append('DEMO PASSES PATCHED')
        else:
            msgs.append('demo: ' + ' '.join(out.split())[-120:])
        if check:
            for p in ([meta['property']] if check is True else check):
                env = dict(os.environ, KV_REPO=copy)
                env.setdefault('VERIF_SEED', '1')
                env.setdefault('VERIF_TIER', 'quick')
                ev = os.path.join(HOME, 'evidence', p + '.json')
                rc, out = sh('./run %s' % p, HOME, env)
                msgs.append('%s %s' % (p, 'CAUGHT' if rc == 1 and
                            'VIOLATION property=' + p in out else
                            'MISSED' if rc == 0 else 'BROKEN ' + out[-300:]))
                if rc == 1:
                    msgs.append(' '.join(out.split())[:200])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return pid, msgs


def main():
    args = sys.argv[1:]
    check = None
    if args and args[0] == '-c':
        check, args = True, args[1:]
    elif args and args[0].startswith('-c='):
        check, args = args[0][3:].split(','), args[1:]
    ids = args or sorted(os.listdir(os.path.join(HOME, 'seeded')))
    base = tests('/repo')
    assert len(base) >= 15, base
    with ThreadPoolExecutor(7) as ex:
        for pid, msgs in ex.map(lambda i: one(i, check, base), ids):
            print(pid, *msgs, sep='\n    ', flush=True)


main()
