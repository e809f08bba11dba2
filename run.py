#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [--tier quick|thorough] [--replay FILE]

Compiles the accelerators of /repo's current tree, runs the property's generated
cases in worker processes (both build configurations, several seed shards), merges
what they counted into evidence/ID.json and reports a shrunk failure, if any.

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION line),
2 error of the check itself.
"""
import argparse, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
BUILD = os.path.join(HERE, '.build')


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
               PYTHONNOUSERSITE='1', HYPOTHESIS_NO_PLUGINS='1', VERIF_REPO=REPO, VERIF_HYP=HYP,
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    return env


def accel_dir():
    """Directory holding vrml_accelerate compiled from the current tree"""
    src = os.path.join(REPO, 'accelerate')
    files = []
    for sub in ('', 'src', 'vrml_accelerate'):
        d = os.path.join(src, sub)
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p) and n.rsplit('.', 1)[-1] in ('py', 'pyx', 'pxd', 'pxi', 'toml', 'h', 'txt', 'in'):
                files.append((os.path.join(sub, n), p))
    h = hashlib.sha256()
    for rel, p in files:
        h.update(rel.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    target = os.path.join(BUILD, 'accel-' + h.hexdigest()[:20])
    if os.path.exists(os.path.join(target, 'ok')):
        return target
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        for rel, p in files:
            os.makedirs(os.path.dirname(os.path.join(tmp, rel)), exist_ok=True)
            shutil.copyfile(p, os.path.join(tmp, rel))
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j4'], cwd=tmp,
                           env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stdout.write(r.stdout.decode(errors='replace')[-3000:])
            raise SystemExit(2)
        shutil.rmtree(os.path.join(tmp, 'build'), ignore_errors=True)
        open(os.path.join(tmp, 'ok'), 'w').close()
        try:
            os.rename(tmp, target)
        except OSError:  # made by another run meanwhile
            if not os.path.exists(os.path.join(target, 'ok')):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep only the most recent few
    old = sorted((os.path.join(BUILD, n) for n in os.listdir(BUILD) if n.startswith('accel-')),
                 key=os.path.getmtime)
    for p in old[:-4]:
        if p != target:
            shutil.rmtree(p, ignore_errors=True)
    return target


def env_for(config, accel):
    env = base_env()
    path = [REPO]
    if config == 'accel1':
        path.insert(0, accel)
    env['PYTHONPATH'] = os.pathsep.join(path)
    env['VERIF_CONFIG'] = config
    env['VERIF_ACCEL_DIR'] = accel
    return env


def load_known():
    """known_findings.txt: lists findings (probed by the checks) and fixed defects"""
    p = os.path.join(HERE, 'known_findings.txt')
    return [l.rstrip('\n') for l in open(p)] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', help='only the named case')
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args()
    started = time.time()
    accel = accel_dir()
    if args.prop == 'setup':
        return 0
    worker = os.path.join(HERE, 'harness', 'worker.py')

    if args.replay:
        rep = json.load(open(args.replay))
        r = subprocess.run([PY, worker, 'replay', args.prop, args.replay], env=env_for(rep['config'], accel), cwd=HERE)
        if r.returncode == 1:
            print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
        return r.returncode

    info = json.loads(subprocess.run([PY, worker, 'info', args.prop], env=env_for('accel0', accel), cwd=HERE,
                                     stdout=subprocess.PIPE, check=True).stdout)
    configs = info['configs']
    nshards = max(1, 8 // len(configs))
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % args.prop)
    procs = []
    limit = 780 if args.tier == 'quick' else 6 * 3600
    try:
        for config in configs:
            for shard in range(nshards):
                out = os.path.join(tmp, '%s-%d' % (config, shard))
                cmd = [PY, worker, 'run', args.prop, str(shard), str(nshards), str(args.seed), args.tier, out,
                       args.case or '', str(args.scale)]
                p = subprocess.Popen(cmd, env=env_for(config, accel), cwd=HERE, stdout=open(out + '.log', 'wb'),
                                     stderr=subprocess.STDOUT, start_new_session=True)
                procs.append((config, shard, out, p))
        deadline = started + limit
        failed_at = None
        while any(p.poll() is None for *_, p in procs):
            time.sleep(0.05)
            if failed_at is None and any(p.poll() == 1 for *_, p in procs):
                failed_at = time.time()
            now = time.time()
            # once one worker has a shrunk failure the others need not go on
            if now > deadline or (failed_at and now > failed_at + 0.5):
                for *_, p in procs:
                    if p.poll() is None:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                for *_, p in procs:
                    p.wait()
        return finish(args, info, procs, started, accel, timed_out=time.time() > deadline)
    finally:
        for *_, p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def finish(args, info, procs, started, accel, timed_out):
    evaluations, hashes, labels, samples, errors, failures = 0, set(), {}, {}, [], []
    per_case = {}
    for config, shard, out, p in procs:
        stats = None
        if os.path.exists(out + '.stats'):
            stats = json.load(open(out + '.stats'))
            evaluations += stats['evaluations']
            hashes.update(stats['hashes'])
            for k, v in stats['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in stats['per_case'].items():
                per_case[k] = per_case.get(k, 0) + v
            for k, v in stats['samples'].items():
                samples.setdefault(k, [])
                samples[k] = (samples[k] + v)[:3]
        if os.path.exists(out + '.fail'):
            failures.append((config, json.load(open(out + '.fail'))))
        elif p.returncode not in (0, -signal.SIGKILL) or stats is None:
            log = open(out + '.log', errors='replace').read()
            errors.append((config, shard, p.returncode, log))
    if failures:
        errors = []
    elif timed_out:
        errors.append(('', '', '', 'time limit of the check reached'))
    # prefer a finished (shrunk) failure, and a small one
    failures.sort(key=lambda f: (not f[1].get('shrunk'), len(f[1]['case_repr'])))
    violation = None
    if failures:
        config, f = failures[0]
        f.update(property=args.prop, config=config, seed=args.seed, tier=args.tier,
                 how='python3 run.py %s --replay <this file>' % args.prop)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (
            args.prop, hashlib.sha256((config + f['case'] + f['case_repr']).encode()).hexdigest()[:12]))
        json.dump(f, open(path, 'w'), indent=1)
        try:
            r = subprocess.run([PY, os.path.join(HERE, 'harness', 'worker.py'), 'replay', args.prop, path],
                               env=env_for(config, accel), cwd=HERE, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=200)
            f['confirmed_in_fresh_process'] = r.returncode == 1
        except subprocess.TimeoutExpired:
            f['confirmed_in_fresh_process'] = None
        json.dump(f, open(path, 'w'), indent=1)
        violation = path
    evidence = dict(property=args.prop, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick',
                    seed=args.seed, level='exploration',
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=len(hashes), rule=info['rule'],
                                  samples=[s for k in sorted(samples) for s in samples[k]][:12],
                                  per_case=per_case, classes=dict(sorted(labels.items()))),
                    assumptions=info['assumptions'], wall_s=round(time.time() - started, 2),
                    violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = os.path.join(HERE, 'evidence', args.prop + '.json')
    with open(ev + '.tmp', 'w') as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(ev + '.tmp', ev)
    if violation:
        print('case %s (%s, confirmed in a fresh process: %s)' % (f['case'], config, f['confirmed_in_fresh_process']))
        print(f['case_repr'][:3000])
        print(f['error'][-3000:])
        print('VIOLATION property=%s replay=%s' % (args.prop, violation))
        return 1
    if errors:
        for config, shard, rc, log in errors[:3]:
            print('ERROR worker %s/%s ended with %s\n%s' % (config, shard, rc, log[-3000:]))
        return 2
    # findings recorded in known_findings.txt: probed one by one
    rc = probes(args.prop, accel)
    if rc:
        return rc
    print('%s: held on %d cases (%d distinct non-trivial) in %.1fs' % (
        args.prop, evaluations, len(hashes), time.time() - started))
    return 0


def probes(prop, accel):
    for line in load_known():
        if line.startswith('KNOWN-FINDING: property=%s ' % prop):
            # each finding names its probe: [probe=NAME]
            name = line.rsplit('[probe=', 1)[1].rstrip('] ')
            r = subprocess.run([PY, os.path.join(HERE, 'harness', 'worker.py'), 'probe', prop, name],
                               env=env_for('accel0', accel), cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 1:
                print(line)
            elif r.returncode != 0:
                print(r.stdout.decode(errors='replace')[-2000:])
                return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
