"""Runs one property's check: generated-input search against an oracle.

A check module (checks/cNN.py) provides

  PROP        property id
  RULE        how cases are made and what makes one non-trivial
  BUDGET      {'quick': n, 'thorough': n}: cases per shard
  strategy(tier)       Hypothesis strategy of JSON cases
  run_case(case, ctx)  raises Violation; calls ctx.label()/ctx.nontrivial()
  CORPUS      (optional) JSON cases that are always run, first
  FINDINGS    (optional) {finding id: predicate(case, message)}

The budget is a number of cases, so that a run is a function of the code and
VERIF_SEED; a generous wall-clock cap only guards against a code under test
that has become very slow, and is reported in the evidence.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

from . import boot

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2
SHARDS = 7
WALL_CAP = {'quick': 330, 'thorough': 5400}
SHRINK_S = {'quick': 60, 'thorough': 180}
CASE_S = 90
CRASHES = (-4, -6, -7, -8, -11)     # signals that a crash ends with
KNOWN_FILE = os.path.join(boot.VERIF, 'known_findings.json')


class Ctx:
    """What a case reports about itself"""

    def __init__(self):
        self.labels = set()
        self.nontriv = False
        self.findings = {}
        self.timed_out = False

    def label(self, *names):
        for n in names:
            if n:
                self.labels.add(str(n))

    def nontrivial(self, flag=True):
        if flag:
            self.nontriv = True

    def finding(self, fid, what):
        """The case shows a listed defect of the code (see known_findings)"""
        self.findings.setdefault(fid, what)


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    """Not an Exception: nothing is to take it for a failure of the code"""


def canon(case):
    return json.dumps(case, separators=(',', ':'))


def load_known(prop):
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {x['id']: x for x in data.get('findings', [])
            if x['property'] == prop}


def _alarm(*_):
    raise CaseTimeout()


def execute(mod, case):
    """Run one case.  Returns (ctx, None | message)"""
    from . import world
    ctx = Ctx()
    world.reset_globals()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_S)
    try:
        try:
            mod.run_case(json.loads(json.dumps(case)), ctx)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    except world.Violation as e:
        return ctx, str(e)
    except CaseTimeout:
        # not a failure here: it has to repeat in a fresh process
        ctx.label('timeout')
        ctx.timed_out = True
        return ctx, None
    except (MemoryError, ImportError, KeyboardInterrupt):
        raise
    except OSError as e:
        raise HarnessError('case failed with {!r}'.format(e)) from e
    except Exception as e:
        # the oracle met output that it cannot even interpret
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return ctx, 'unexpected output: {} ({} at {}:{})'.format(
            e, type(e).__name__, os.path.basename(tb.filename), tb.lineno)
    unlisted = set(ctx.findings) - set(load_known(mod.PROP))
    if unlisted:
        return ctx, '; '.join(ctx.findings[k] for k in sorted(unlisted))
    return ctx, None


class Shard:
    def __init__(self, mod, tier, seed, index, budget, deadline):
        self.mod, self.tier, self.seed, self.index = mod, tier, seed, index
        self.budget, self.deadline = budget, deadline
        self.n = 0
        self.skipped = 0
        self.seen = set()
        self.nontriv = set()
        self.labels = {}
        self.samples = []
        self.findings = {}
        self.best = None            # (length, case, message)
        self.first = None
        self.fail_t = None
        self.known_fail = {}
        self.timeouts = []
        self.current = None         # file that names the case being run

    def one(self, case):
        """Returns the failure message of the case, if any"""
        key = canon(case)
        if key in self.known_fail:
            return self.known_fail[key]
        now = time.time()
        if self.fail_t is not None:
            if now - self.fail_t > SHRINK_S[self.tier]:
                return None
        elif now > self.deadline:
            self.skipped += 1
            return None
        if len(self.timeouts) > 1:
            self.skipped += 1
            return None
        if self.current:
            with open(self.current, 'w') as f:
                f.write(key)
        ctx, msg = execute(self.mod, case)
        if ctx.timed_out:
            self.timeouts.append(case)
        if self.fail_t is None:
            self.n += 1
            h = hashlib.blake2b(key.encode(), digest_size=8).hexdigest()
            self.seen.add(h)
            if ctx.nontriv:
                self.nontriv.add(h)
                if len(self.samples) < 2 and len(key) < 3000:
                    self.samples.append(case)
            for x in ctx.labels:
                self.labels[x] = self.labels.get(x, 0) + 1
            for k, v in ctx.findings.items():
                self.findings.setdefault(k, v)
        if msg is not None:
            self.known_fail[key] = msg
            if self.fail_t is None:
                self.fail_t = time.time()
                self.first = (case, msg)
            if self.best is None or len(key) < self.best[0]:
                self.best = (len(key), case, msg)
        return msg

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        from .world import Violation

        @hypothesis.seed(self.seed * 1000003 + self.index)
        @settings(max_examples=self.budget, database=None, deadline=None,
                  phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet,
                  suppress_health_check=list(HealthCheck))
        @hypothesis.given(self.mod.strategy(self.tier))
        def search(case):
            msg = self.one(case)
            if msg is not None:
                raise Violation('violation')

        try:
            search()
        except BaseException as e:
            if self.best is None or isinstance(e, KeyboardInterrupt):
                raise

    def result(self):
        return {'n': self.n, 'skipped': self.skipped,
                'seen': sorted(self.seen), 'nontriv': sorted(self.nontriv),
                'labels': self.labels, 'samples': self.samples,
                'findings': self.findings, 'best': self.best,
                'first': self.first, 'timeouts': self.timeouts}


def own_group():
    """So that what a shard leaves running can be ended with it"""
    os.setpgid(0, 0)
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # PR_SET_PDEATHSIG
    except Exception:
        pass


def end_of(pr, deadline):
    """Wait for a shard (its sentinel may be held open by a grandchild)"""
    while pr.exitcode is None and time.time() < deadline:
        time.sleep(.02)
    ended = pr.exitcode is not None
    for sig in (signal.SIGTERM, signal.SIGKILL):
        try:
            os.killpg(pr.pid, sig)
        except (ProcessLookupError, PermissionError):
            break
        time.sleep(.02)
    return ended


def _shard_main(modname, tier, seed, index, budget, deadline, corpus, path):
    try:
        own_group()
        sys.stderr.flush()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        mod = importlib.import_module(modname)
        s = Shard(mod, tier, seed, index, budget, deadline)
        s.current = path + '.current'
        for case in corpus:
            if s.one(case) is not None:
                break
        if s.best is None and budget:
            s.run()
        out = s.result()
    except BaseException:
        out = {'error': traceback.format_exc()}
    with open(path + '.tmp', 'w') as f:
        json.dump(out, f)
    os.rename(path + '.tmp', path)
    os._exit(0)


def warm_up():
    """Import the code under test and compile its jitted parts once"""
    import numpy  # noqa: F401
    from . import world
    import metsim.metsim
    from metsim import physics
    where = os.path.realpath(os.path.dirname(metsim.__file__))
    want = os.path.realpath(os.path.join(boot.REPO, 'metsim'))
    if where != want:
        raise HarnessError('imported {} instead of {}'.format(where, want))
    import numpy as np
    f = getattr(physics, 'solar_geom', None)
    if f is not None:
        try:
            f(np.float64(10.), np.float64(40.), 0.0065)
        except Exception:
            pass    # the cases report it
    world.snapshot_globals()


def replay(prop, path, n=1):
    mod = importlib.import_module('checks.' + prop.lower())
    with open(path) as f:
        data = json.load(f)
    warm_up()
    for _ in range(max(n, getattr(mod, 'REPLAYS', 1))):
        ctx, msg = execute(mod, data['case'])
        if ctx.timed_out:
            msg = 'did not end within {} s'.format(CASE_S)
        if msg is not None:
            print('VIOLATION property={} replay={}'.format(prop, path))
            print('  ' + msg)
            return EXIT_VIOLATION
    print('property {} holds for {}'.format(prop, path))
    return EXIT_OK


def _confirm(prop, path):
    # in a session of its own, so that nothing is left running
    pr = subprocess.Popen(
        [sys.executable, os.path.join(boot.VERIF, 'run.py'), prop,
         '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        cwd=boot.VERIF, start_new_session=True)
    try:
        out, _ = pr.communicate(timeout=2 * CASE_S)
    except subprocess.TimeoutExpired:
        out = b'the replay did not end'
    finally:
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    code = pr.wait()
    return code == EXIT_VIOLATION or code in CRASHES, out.decode(
        errors='replace')


def save_replay(prop, case, msg, seed, tag):
    d = os.path.join(boot.VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}-{}.json'.format(prop, seed, tag))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'message': msg, 'case': case}, f,
                  indent=1)     # (the order of a dictionary can matter)
    return path


def check(prop, tier, seed):
    t0 = time.time()
    modname = 'checks.' + prop.lower()
    warm_up()
    mod = importlib.import_module(modname)
    budget = mod.BUDGET[tier]
    shards = int(os.environ.get('VERIF_SHARDS', getattr(mod, 'SHARDS', SHARDS)))
    deadline = t0 + WALL_CAP[tier]
    corpus = list(getattr(mod, 'CORPUS', []))
    cdir = os.path.join(boot.VERIF, 'corpus', prop)
    if os.path.isdir(cdir):
        for fn in sorted(os.listdir(cdir)):
            with open(os.path.join(cdir, fn)) as f:
                corpus.append(json.load(f)['case'])
    import tempfile
    tmp = tempfile.mkdtemp(prefix='vshard_')
    mp = multiprocessing.get_context('fork')
    procs = []
    for i in range(shards):
        path = os.path.join(tmp, '{}.json'.format(i))
        pr = mp.Process(target=_shard_main, args=(
            modname, tier, seed, i, budget, deadline, corpus[i::shards], path))
        pr.start()
        procs.append((pr, path))
    results, errors, suspects = [], [], []
    for pr, path in procs:
        if not end_of(pr, deadline + SHRINK_S[tier] + 2 * CASE_S):
            errors.append('a shard did not end in time')
            continue
        if not os.path.exists(path):
            if pr.exitcode in CRASHES and os.path.exists(path + '.current'):
                with open(path + '.current') as f:
                    case = json.load(f)
                suspects.append((case, 'the process crashed with signal {}'
                                 .format(-pr.exitcode)))
            else:
                errors.append('a shard died with exit code {}'.format(
                    pr.exitcode))
            continue
        with open(path) as f:
            r = json.load(f)
        if 'error' in r:
            errors.append(r['error'])
        else:
            results.append(r)
            suspects += [(c, 'did not end within {} s'.format(CASE_S))
                         for c in r['timeouts']]
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    labels, findings, samples = {}, {}, []
    seen, nontriv = set(), set()
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        findings.update(r['findings'])
        seen.update(r['seen'])
        nontriv.update(r['nontriv'])
        samples.extend(r['samples'])
    known = load_known(prop)
    confirmed, unconfirmed = [], []
    fails = sorted((r for r in results if r['best']),
                   key=lambda r: r['best'][0])
    for k, r in enumerate(fails):
        if confirmed:
            break
        for tag, (case, msg) in (('min', r['best'][1:]), ('first', r['first'])):
            path = save_replay(prop, case, msg, seed, '{}{}'.format(tag, k))
            ok, text = _confirm(prop, path)
            if ok:
                confirmed.append((path, msg))
                break
            unconfirmed.append((path, msg, text))
    # crashes and endless runs count when they repeat in a fresh process
    for k, (case, msg) in enumerate(suspects[:3]):
        if confirmed:
            break
        path = save_replay(prop, case, msg, seed, 'run{}'.format(k))
        for _ in range(3 if 'crashed' in msg else 1):
            ok, text = _confirm(prop, path)
            if ok:
                confirmed.append((path, msg))
                break
        else:
            if 'crashed' in msg:
                unconfirmed.append((path, msg, text))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['n'] for r in results),
            'distinct_cases': len(seen),
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'classes': dict(sorted(labels.items())),
            'corpus_cases': len(corpus),
            'not_run_for_time': sum(r['skipped'] for r in results),
            'shards': shards, 'cases_per_shard': budget,
            'known_findings_seen': sorted(findings),
            'samples': samples[:4],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print('{}: {} cases ({} distinct and non-trivial) in {:.0f} s'.format(
        prop, evidence['coverage']['evaluations'], len(nontriv),
        time.time() - t0))
    for k in sorted(findings):
        if k in known:
            print('KNOWN-FINDING: property={} {}'.format(
                prop, known[k]['what']))
    for path, msg in confirmed:
        print('VIOLATION property={} replay={}'.format(prop, path))
        print('  ' + msg)
    if confirmed:
        return EXIT_VIOLATION
    if unconfirmed:
        for path, msg, text in unconfirmed:
            print('ERROR: failure not reproduced in a fresh process: {} ({})'
                  .format(msg, path))
            print(text[-1000:])
        return EXIT_ERROR
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return EXIT_ERROR
    return EXIT_OK


def selftest():
    """Everything that the checks import is there"""
    warm_up()
    import hypothesis
    d = os.path.join(boot.VERIF, 'checks')
    names = sorted(f[:-3] for f in os.listdir(d)
                   if f.startswith('c') and f.endswith('.py'))
    for n in names:
        mod = importlib.import_module('checks.' + n)
        assert mod.PROP == n.upper() and mod.RULE and mod.BUDGET
    print('{} checks, hypothesis {}'.format(len(names),
                                            hypothesis.__version__))
    return EXIT_OK


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    try:
        if a.selftest:
            return selftest()
        prop = a.property.upper()
        if a.replay:
            return replay(prop, a.replay)
        return check(prop, a.tier, a.seed)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return EXIT_ERROR
