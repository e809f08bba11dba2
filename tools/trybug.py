"""Try seeded bugs in scratch copies of /repo (development only; no check uses it)

usage: trybug.py [--no-check] [-j N] ID...    (or: all)

For each: patch applies, builds, the stable tests pass, the demo tells the trees apart, and
whether the check of its property reports a violation (VERIF_REPO points run.py at the copy).
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1')
ENV.pop('PYTHONPATH', None)


def run(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests(wt):
    n = 0
    for accel in (0, 1):
        env = dict(ENV)
        if accel:
            env['PYTHONPATH'] = wt + '/accelerate'
        rc, out = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300'], wt, env)
        m = re.search(r'(\d+) passed', out)
        n += int(m.group(1)) if m else 0
    return n


def one(bid, check=True, props=None):
    d = os.path.join(HERE, 'seeded', bid)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='trybug-')
    res = {'id': bid, 'prop': meta['property']}
    try:
        wt = tmp + '/repo'
        subprocess.run(['cp', '-a', os.environ.get('BASE_REPO', '/repo'), wt], check=True)
        res['demo0'] = run([d + '/demo.sh'], wt, timeout=300)[0]
        rc, out = run(['git', 'apply', d + '/patch.diff'], wt)
        if rc:
            res['error'] = 'does not apply: ' + out
            return res
        if 'accelerate' in open(d + '/patch.diff').read():
            rc, out = run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j4'], wt + '/accelerate')
            if rc:
                res['error'] = 'does not build: ' + out[-500:]
                return res
        res['tests'] = tests(wt)
        rc, out = run([d + '/demo.sh'], wt, timeout=300)
        res['demo1'] = rc
        res['demo_out'] = out.strip().splitlines()[-1:] if out.strip() else []
        if check:
            for prop in props or [meta['property']]:
                t = time.time()
                env = dict(os.environ, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick',
                           VERIF_OUT=tmp + '/out')
                rc, out = run(['python3', 'run.py', prop, '--tier', 'quick'], HERE, env)
                res[prop] = (rc, 'VIOLATION property=%s' % prop in out, round(time.time() - t))
                if rc == 1:
                    res['msg'] = [l for l in out.splitlines() if 'VIOLATION' in l or 'Error' in l][-2:]
                elif rc:
                    res['msg'] = out[-600:]
    finally:
        shutil.rmtree(tmp)
    return res


if __name__ == '__main__':
    args = sys.argv[1:]
    check = '--no-check' not in args
    args = [a for a in args if a != '--no-check']
    jobs = 2
    if '-j' in args:
        i = args.index('-j')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    props = None
    if '--props' in args:
        i = args.index('--props')
        props = args[i + 1].split(',')
        del args[i:i + 2]
    if args == ['all']:
        args = sorted(os.listdir(HERE + '/seeded'))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda b: one(b, check, props), args):
            bad = []
            if r.get('demo0') != 0:
                bad.append('DEMO FAILS ON CLEAN')
            if r.get('demo1') in (0, None):
                bad.append('DEMO PASSES WITH BUG')
            if r.get('tests') != 45:
                bad.append('TESTS')
            caught = [v for k, v in r.items() if re.match(r'C\d\d$', k)]
            if check and not any(c[1] and c[0] == 1 for c in caught):
                bad.append('MISSED')
            print(json.dumps(r), ' '.join(bad) or 'ok', flush=True)
