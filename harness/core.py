"""Drives Hypothesis over the cases of a property module

A property module (props/cXX.py) has
    RULE         what the cases are and which count as non-trivial
    ASSUMPTIONS  list of strings
    CONFIGS      build configurations to run in (default both)
    CASES        list of Case
Every case's value is plain data (numbers, strings, tuples, lists, dicts), so that a
failing one can be written to the replay file and run again without Hypothesis.
"""
import base64, gc, hashlib, importlib, json, os, pickle, resource, signal, sys, time, traceback

MEMORY_LIMIT = 3 << 30  # of a worker; cases need a few MB
# what each quick check is worth: its cases' counts are multiplied by this (the cases of a property cost from 1 to 30 ms)
BUDGET = dict(C01=1.2, C02=1.5, C03=1.2, C04=1.5, C05=2, C06=.8, C07=3, C08=4, C09=4, C10=4, C11=3, C12=4, C13=2.5, C14=2, C15=2.5, C16=2.5, C17=2,
              C18=3, C19=3, C20=3, C21=3, C22=4, C23=3, C24=1.2, C25=1.5, C27=1.5, C28=2.5, C29=1.5, C30=1.3, C31=1.4, C32=1.5, C33=4)
QUICK_SECONDS = 480  # on a slow machine, a quick check runs no more cases after this time
CPU_LIMIT = 60  # seconds of processor time for one case; cases take milliseconds


class Violation(AssertionError):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Case:
    def __init__(self, name, strategy, fn, quick, thorough=None, configs=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 30
        self.configs = configs  # None: all of the property's


class Recorder:
    """What one worker has covered"""
    def __init__(self):
        self.evaluations = 0
        self.hashes, self.labels, self.samples, self.per_case = set(), {}, {}, {}
        self.nontrivial = False
        self.quiet = False

    def begin(self, casename, value):
        self.casename, self.value = casename, value
        self.nontrivial = False

    def nt(self, cond=True):
        """Mark the current case as non-trivial (if cond)"""
        if cond:
            self.nontrivial = True

    def label(self, name, cond=True):
        if cond:
            key = self.casename + ':' + name
            self.labels[key] = self.labels.get(key, 0) + 1

    def end(self):
        self.evaluations += 1
        self.per_case[self.casename] = self.per_case.get(self.casename, 0) + 1
        if self.nontrivial:
            rep = self.casename + repr(self.value)
            self.hashes.add(hashlib.sha256(rep.encode('utf-8', 'backslashreplace')).hexdigest()[:16])
            s = self.samples.setdefault(self.casename, [])
            # spread-out samples, not only the first and simplest
            if len(s) < 2 and (self.per_case[self.casename] in (20, 21) or self.per_case[self.casename] > 50):
                s.append(dict(case=self.casename, value=rep[len(self.casename):][:700]))


class Timeout(Violation):
    pass


def _alarm(signum, frame):
    raise Timeout('did not finish within %d s of processor time' % CPU_LIMIT)


def run_one(case, value, rec):
    """Execute one case; any exception is a failure of the property

    (the harness only uses the library's public functions on values for which they
    are specified not to raise)
    """
    rec.begin(case.name, value)
    # collections within the case need not look at the harness's objects
    if rec.evaluations % 250 == 249:
        gc.unfreeze()
        gc.collect()
    gc.freeze()
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        case.fn(value, rec)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    rec.end()


def budget(prop, case):
    """How many cases of the kind the quick check runs"""
    return int(case.quick * BUDGET.get(prop, 1))


def load(prop):
    mod = importlib.import_module('props.' + prop.lower())
    check_config()
    return mod


def check_config():
    """The process really runs the configuration it is meant to (and /repo's code)"""
    import vrml
    from vrml import field
    repo = os.environ['VERIF_REPO']
    assert os.path.realpath(vrml.__file__).startswith(os.path.realpath(repo) + '/'), vrml.__file__
    accel = os.environ['VERIF_CONFIG'] == 'accel1'
    try:
        import vrml_accelerate.tmatrixaccel as t, vrml_accelerate.fieldaccel2, vrml_accelerate.frustcullaccel
        have = True
        assert t.__file__.startswith(os.environ['VERIF_ACCEL_DIR']), t.__file__
    except ImportError:
        have = False
    assert have == accel, 'configuration %s, accelerators %s' % (os.environ['VERIF_CONFIG'], have)


def worker_main(argv):
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    what, prop = argv[:2]
    if what == 'info':
        mod = importlib.import_module('props.' + prop.lower())
        print(json.dumps(dict(rule=mod.RULE, assumptions=mod.ASSUMPTIONS,
                              configs=getattr(mod, 'CONFIGS', ['accel0', 'accel1']))))
        return 0
    mod = load(prop)
    if what == 'probe':
        # a probe returns True while its finding still fails
        return 1 if mod.PROBES[argv[2]]() else 0
    if what == 'replay':
        rep = json.load(open(argv[2]))
        case = [c for c in mod.CASES if c.name == rep['case']][0]
        value = pickle.loads(base64.b64decode(rep['pickle']))
        try:
            run_one(case, value, Recorder())
        except BaseException:
            traceback.print_exc()
            return 1
        return 0
    shard, nshards, seed, tier, out, only, scale = argv[2:]
    return run_shard(mod, prop, int(shard), int(nshards), int(seed), tier, out, only, float(scale))


def run_shard(mod, prop, shard, nshards, seed, tier, out, only, scale):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    rec = Recorder()
    config = os.environ['VERIF_CONFIG']
    status = 0
    stop = time.time() + QUICK_SECONDS if tier == 'quick' else None

    def save(failure=None):
        if failure is not None:
            with open(out + '.fail.tmp', 'w') as f:
                json.dump(failure, f)
            os.replace(out + '.fail.tmp', out + '.fail')

    for case in mod.CASES:
        if only and case.name != only:
            continue
        if case.configs and config not in case.configs:
            continue
        total = int((budget(prop, case) if tier == 'quick' else case.thorough) * scale)
        n = max(1, total // nshards)
        s = int(hashlib.sha256(('%s:%s:%s:%s:%s' % (seed, prop, case.name, config, shard)).encode()).hexdigest()[:12], 16)
        failing = {}

        def body(value):
            if stop is not None and time.time() > stop and not failing:
                return
            try:
                run_one(case, value, rec)
            except (hypothesis.errors.HypothesisException, hypothesis.errors.StopTest, KeyboardInterrupt):
                raise
            except BaseException as e:
                failing.update(case=case.name, case_repr=repr(value), shrunk=False,
                               pickle=base64.b64encode(pickle.dumps(value)).decode(),
                               error=''.join(traceback.format_exception(e))[-6000:])
                if not failing.get('saved'):
                    failing['saved'] = True
                    save(failing)
                if not isinstance(e, Exception):
                    raise Violation(repr(e))
                raise

        test = given(case.strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False,
                        verbosity=Verbosity.quiet)(test)
        test = hypothesis.seed(s)(test)
        try:
            test()
        except BaseException as e:
            if not failing:
                traceback.print_exc()
                return 2  # the harness's own fault
            failing['shrunk'] = not isinstance(e, hypothesis.errors.Flaky)
            save(failing)
            status = 1
            break
    with open(out + '.stats.tmp', 'w') as f:
        json.dump(dict(evaluations=rec.evaluations, hashes=sorted(rec.hashes), labels=rec.labels,
                       samples=rec.samples, per_case=rec.per_case), f)
    os.replace(out + '.stats.tmp', out + '.stats')
    return status
