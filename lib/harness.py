"""Property-based testing harness shared by all checks.

A check module (checks/<id>.py) registers *facets*: a hypothesis strategy that
produces a plain-JSON case, and a body that exercises the real code on the case
and compares with an oracle.  A body is a pure function of (case, code): any
random numbers it needs come from numpy RandomState seeded by integers drawn in
the case.  The runner shrinks a failing case with hypothesis and writes it as a
replay file, which can be re-run without hypothesis (run.sh <ID> replay FILE).
"""
import hashlib
import importlib
import importlib.machinery
import importlib.util
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

SHRINK_SECONDS = 40
CASE_SECONDS = 150          # ordinary cases take well under a second


class _VTFinder:
    """Expose only hypothesis (and what it needs) from the tooling venv."""
    NAMES = ('hypothesis', '_hypothesis_ftz_detector', '_hypothesis_globals',
             '_hypothesis_pytestplugin', 'sortedcontainers')

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and name in cls.NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


def bootstrap():
    sys.dont_write_bytecode = True
    sys.meta_path.append(_VTFinder)
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(ROOT, 'lib'))
    quiet()


def quiet():
    warnings.simplefilter('ignore')
    warnings.showwarning = lambda *a, **k: None
    import logging
    logging.disable(logging.NOTSET)


class Violation(AssertionError):
    """The property does not hold on this case."""


class Hang(BaseException):
    """The code under test does not terminate on the case (not shrunk)."""


class HarnessError(Exception):
    """The harness itself is at fault: never a violation."""


def _plain(obj):
    if isinstance(obj, dict):
        return {str(k): _plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_plain(v) for v in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    raise HarnessError('case is not plain data: %r' % (obj,))


STATS = {} if os.environ.get('VERIF_STATS') else None


class Ctx:
    """Passed to a facet body."""

    def __init__(self):
        self.interesting = False
        self.labels = {}

    @staticmethod
    def check(cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    @staticmethod
    def _dev(d, tol, msg):
        if STATS is not None and tol:
            key = msg.split('(')[0]
            STATS[key] = max(STATS.get(key, 0), float(d) / tol)

    @staticmethod
    def close(a, b, tol, msg='values differ', *args):
        import numpy as np
        if args:
            msg = msg % args
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation('%s: shape %s != %s' % (msg, a.shape, b.shape))
        if a.size:
            d = np.abs(a - b)
            m = np.max(d)
            Ctx._dev(m, tol, msg)
            if not m <= tol:
                raise Violation('%s: got %s expected %s (max diff %s > %s)'
                                % (msg, np.array2string(a, threshold=40),
                                   np.array2string(b, threshold=40), m, tol))

    @staticmethod
    def raises(exc, func, msg='no error raised'):
        try:
            func()
        except exc:
            return
        raise Violation(msg)

    def nontrivial(self, cond=True):
        if cond:
            self.interesting = True

    def label(self, name):
        self.labels[name] = 1


class Facet:
    def __init__(self, name, strategy, body, quick, thorough, rule, shards, examples):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.examples = examples


FACETS = []


def facet(name, strategy, quick, thorough=None, rule='', shards=1, examples=()):
    """Register a facet; quick/thorough are case counts, split over the shards."""
    def deco(body):
        FACETS.append(Facet(name, strategy, body, quick, thorough or quick * 10, rule,
                            shards, list(examples)))
        return body
    return deco


def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _seed_globals():
    import numpy as np
    random.seed(0)
    np.random.seed(0)


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    inrepo = [f for f in tb if f.filename.startswith(REPO + '/')]
    where = ''
    if inrepo:
        f = inrepo[-1]
        where = ' [raised in %s:%s %s]' % (f.filename[len(REPO) + 1:], f.lineno, f.name)
    elif not isinstance(exc, Violation) and tb:
        f = tb[-1]
        where = ' [while judging the output, %s:%s]' % (os.path.basename(f.filename), f.lineno)
    return '%s: %s%s' % (type(exc).__name__, str(exc)[:1500], where)


QUICK_SCALE = [1]      # from the check module


class ShardRun:
    """Runs one shard of one facet; collects statistics."""

    def __init__(self, facet_, nr, tier, seed):
        self.facet = facet_
        self.nr = nr
        total = QUICK_SCALE[0] * facet_.quick if tier == 'quick' else facet_.thorough
        self.count = max(1, total // facet_.shards)
        self.tier = tier
        self.seed = (int(seed) * 1009 + nr * 7919 +
                     int(hashlib.sha1(facet_.name.encode()).hexdigest()[:6], 16))
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.failure = None
        self.error = None

    def one(self, case):
        case = _plain(case)
        self.evals += 1
        ctx = Ctx()
        _seed_globals()

        def hung(*_):
            self.failure = {'case': case, 'message': 'the case did not finish within %d s' % CASE_SECONDS}
            raise Hang()
        old = signal.signal(signal.SIGALRM, hung)
        signal.alarm(CASE_SECONDS)
        try:
            self.facet.body(case, ctx)
        except (HarnessError, MemoryError, KeyboardInterrupt):
            raise
        except Exception as exc:  # pylint: disable=broad-except
            import hypothesis.errors as he
            if isinstance(exc, (he.HypothesisException, he.UnsatisfiedAssumption)):
                raise
            self.failure = {'case': case, 'message': _describe(exc)}
            raise
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if ctx.interesting:
            dig = _digest(case)
            if dig not in self.nontrivial:
                self.nontrivial.add(dig)
                if len(self.samples) < 2 and self.nr == 0:
                    self.samples.append(case)
        for k in ctx.labels:
            self.labels[k] = self.labels.get(k, 0) + 1

    def run(self):
        import hypothesis
        import hypothesis.errors as he
        from hypothesis import HealthCheck, Phase
        try:
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        except Exception:  # pylint: disable=broad-except
            pass
        try:
            if self.nr == 0:
                for case in self.facet.examples:
                    try:
                        self.one(case)
                    except (HarnessError, MemoryError):
                        raise
                    except Exception:  # pylint: disable=broad-except
                        if self.failure:
                            return self.report()
                        raise

            @hypothesis.seed(self.seed)
            @hypothesis.settings(max_examples=self.count, deadline=None, database=None,
                                 phases=(Phase.generate,) if os.environ.get('VERIF_NOSHRINK') else (Phase.generate, Phase.shrink),
                                 suppress_health_check=[HealthCheck.too_slow,
                                                        HealthCheck.data_too_large,
                                                        HealthCheck.large_base_example],
                                 report_multiple_bugs=False, print_blob=False,
                                 verbosity=hypothesis.Verbosity.quiet)
            @hypothesis.given(self.facet.strategy)
            def test(case):
                quiet()
                self.one(case)

            test()
        except (HarnessError, MemoryError) as exc:
            self.failure = None
            self.error = 'harness: %s' % traceback.format_exc()
        except (he.FailedHealthCheck, he.Unsatisfiable, he.InvalidArgument) as exc:
            if not self.failure:
                self.error = 'hypothesis: %s' % exc
        except BaseException as exc:  # pylint: disable=broad-except
            if not self.failure:
                self.error = traceback.format_exc()
        return self.report()

    def report(self):
        return {'facet': self.facet.name, 'nr': self.nr, 'evals': self.evals,
                'nontrivial': sorted(self.nontrivial), 'samples': self.samples,
                'labels': self.labels, 'failure': self.failure, 'error': self.error}


def _child(conn, run):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        t0 = time.time()
        rep = run.run()
        rep['wall'] = time.time() - t0
        rep['stats'] = STATS
        conn.send(rep)
    except BaseException:  # pylint: disable=broad-except
        conn.send({'facet': run.facet.name, 'nr': run.nr, 'evals': run.evals, 'nontrivial': [],
                   'samples': [], 'labels': {}, 'failure': None,
                   'error': traceback.format_exc(), 'wall': 0})
    finally:
        conn.close()
        os._exit(0)


def load_findings(prop):
    """known-findings.txt: one object per line; 'known' entries suppress exactly the cases
    their facet + match describe, 'fixed' entries suppress nothing."""
    out = []
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith('{'):
                    d = json.loads(line)
                    if d.get('status') == 'known' and d['property'] == prop:
                        out.append(d)
    return out


def run_all(runs, jobs):
    todo = list(runs)
    active = []
    reports = []
    stop = False
    while (todo and not stop) or active:
        while todo and len(active) < jobs and not stop:
            run = todo.pop(0)
            r, w = multiprocessing.Pipe(False)
            pid = os.fork()
            if pid == 0:
                r.close()
                _child(w, run)
            w.close()
            active.append((pid, r, run))
        ready = multiprocessing.connection.wait([a[1] for a in active], timeout=5)
        for item in list(active):
            pid, r, run = item
            if r in ready:
                try:
                    rep = r.recv()
                except EOFError:
                    rep = {'facet': run.facet.name, 'nr': run.nr, 'evals': 0, 'nontrivial': [],
                           'samples': [], 'labels': {}, 'failure': None,
                           'error': 'worker died without a report', 'wall': 0}
                os.waitpid(pid, 0)
                r.close()
                active.remove(item)
                reports.append(rep)
                if rep['failure']:
                    stop = True
        if stop:
            for pid, r, run in active:
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                r.close()
            active = []
    return reports


def main(argv):
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    bootstrap()
    t0 = time.time()
    try:
        path = os.path.join(ROOT, 'checks', prop.lower() + '.py')
        spec = importlib.util.spec_from_file_location('check_' + prop.lower(), path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        QUICK_SCALE[0] = getattr(mod, 'QUICK_SCALE', 2)
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        print('ERROR property=%s: check could not be loaded' % prop)
        return 2
    import qiskit.ignis
    if not os.path.realpath(qiskit.ignis.__file__).startswith(os.path.realpath(REPO) + '/'):
        print('ERROR: qiskit.ignis imported from %s' % qiskit.ignis.__file__)
        return 2

    if tier == 'replay':
        with open(argv[2]) as f:
            rec = json.load(f)
        for fct in FACETS:
            if fct.name == rec['facet']:
                run = ShardRun(fct, 0, 'quick', seed)
                try:
                    run.one(rec['case'])
                except HarnessError:
                    raise
                except (Exception, Hang) as exc:  # pylint: disable=broad-except
                    print(_describe(exc))
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
                    print('VIOLATION property=%s replay=%s' % (prop, argv[2]))
                    return 1
                print('replay passes')
                return 0
        print('ERROR: no such facet %s' % rec['facet'])
        return 2

    only = os.environ.get('VERIF_FACET')
    runs = []
    for fct in FACETS:
        if only and fct.name not in only.split(','):
            continue
        for nr in range(fct.shards):
            runs.append(ShardRun(fct, nr, tier, seed))
    jobs = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    sys.stdout.flush()
    reports = run_all(runs, jobs)

    if STATS is not None:
        tot = {}
        for r in reports:
            for k, v in (r.get('stats') or {}).items():
                tot[r['facet'] + ' ' + k] = max(tot.get(r['facet'] + ' ' + k, 0), v)
        for k, v in sorted(tot.items(), key=lambda t: -t[1])[:12]:
            print('   deviation/tolerance %.2g  %s' % (v, k))
    findings = load_findings(prop)
    for fnd in findings:
        # a known finding is re-demonstrated on its own recorded case
        for fct in FACETS:
            if fct.name == fnd['facet']:
                try:
                    ShardRun(fct, 0, 'quick', seed).one(fnd['case'])
                    print('NOTE property=%s listed finding no longer fails: %s' % (prop, fnd['what']))
                except HarnessError:
                    raise
                except Exception:  # pylint: disable=broad-except
                    print('KNOWN-FINDING: property=%s %s' % (prop, fnd['what']))

    failures = [r for r in reports if r['failure']]
    errors = [r for r in reports if r['error']]
    evals = sum(r['evals'] for r in reports)
    nontriv = set()
    facets = {}
    samples = []
    for r in reports:
        nontriv.update(r['facet'] + d for d in r['nontrivial'])
        ent = facets.setdefault(r['facet'], {'evaluations': 0, 'distinct_nontrivial': 0, 'labels': {}, 'cpu_s': 0})
        ent['evaluations'] += r['evals']
        ent['distinct_nontrivial'] += len(r['nontrivial'])
        ent['cpu_s'] = round(ent['cpu_s'] + r.get('wall', 0), 2)
        for k, v in r['labels'].items():
            ent['labels'][k] = ent['labels'].get(k, 0) + v
        samples += [{'facet': r['facet'], 'case': s} for s in r['samples'][:1]]
    rule = '; '.join('%s: %s' % (f.name, f.rule) for f in FACETS)
    evidence = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'exploration',
        'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nontriv), 'rule': rule,
                     'samples': samples[:12], 'facets': facets},
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(failures)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for k, v in sorted(facets.items()):
        print('%s %-28s evaluations=%d nontrivial=%d cpu=%.1fs %s'
              % (prop, k, v['evaluations'], v['distinct_nontrivial'], v['cpu_s'], v['labels'] or ''))
    if failures:
        rdir = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for r in failures:
            rpath = os.path.join(rdir, '%s-%s.json' % (prop, _digest(r['failure']['case'])[:10]))
            with open(rpath, 'w') as f:
                json.dump({'property': prop, 'facet': r['facet'], **r['failure']}, f, indent=1)
            print('facet %s: %s' % (r['facet'], r['failure']['message']))
            print('minimal case: %s' % json.dumps(r['failure']['case'])[:2000])
            print('VIOLATION property=%s replay=%s' % (prop, rpath))
        return 1
    if errors:
        for r in errors:
            print('ERROR facet=%s shard=%s\n%s' % (r['facet'], r['nr'], r['error']))
        return 2
    if not only and not nontriv:
        print('ERROR: no non-trivial case was generated')
        return 2
    print('OK property=%s evaluations=%d nontrivial=%d wall=%.1fs'
          % (prop, evals, len(nontriv), time.time() - t0))
    return 0
