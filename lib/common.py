"""Shared machinery of the checks: seeds, evidence, violations, known findings, replay."""
import hashlib, json, os, pickle, sys, threading, time, zlib, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True

import hypothesis
import hypothesis.internal.conjecture.engine as _engine
from hypothesis import given, settings, HealthCheck, Phase

_engine.MAX_SHRINKING_SECONDS = 60      # a found failure is small enough by then

warnings.filterwarnings('ignore')


class Violation(Exception):
    """The property does not hold for this case. `sig` identifies what fails."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig


class CheckError(BaseException):
    """The check itself could not give an answer (exit 2)."""


class Stuck(BaseException):
    """The code under test ended the process or did not finish on this case (reported without shrinking)."""


class Done(BaseException):
    """Stop after the first reported violation."""


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


# The checks of the library take milliseconds per case.
QUICK = {'C%02d' % i: 3 for i in range(1, 18)} | {'C18': 2, 'C20': 2, 'C38': 2} | {
    'C%02d' % i: 4 for i in (24, 25, 26, 27, 28, 29, 30, 31, 33, 39, 40, 41)}


class Ctx:
    def __init__(self, prop):
        self.prop_id = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_extra = 0       # distinct by construction (numeric batches)
        self.samples = []
        self.sample_labels = {}
        self.lock = threading.Lock()
        self.labels = {}
        self.rules = []
        self.assumptions = []
        self.violations = 0
        self.quiet = False
        self.replaying = None           # (test, case)
        self.replayed = False
        self.known = []
        self.known_seen = set()
        path = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(path):
            with open(path) as f:
                for k in json.load(f).get('findings', []):
                    if k['property'] == prop:
                        self.known.append(k)

    # --- amount of work -------------------------------------------------
    def n(self, quick, thorough=None):
        return quick * QUICK.get(self.prop_id, 1) if self.tier == 'quick' else (thorough if thorough is not None else quick * 10)

    def seed_for(self, name):
        return zlib.crc32(('%s/%s/%d' % (self.prop_id, name, self.seed)).encode())

    # --- evidence ---------------------------------------------------------
    def rule(self, text):
        self.rules.append(text)

    def case(self, test, case, nontrivial=True, label=None):
        """Count one generated case."""
        with self.lock:
            self._case(test, case, nontrivial, label)

    def _case(self, test, case, nontrivial, label):
        self.evaluations += 1
        lab = '%s:%s' % (test, label) if label else test
        self.labels[lab] = self.labels.get(lab, 0) + 1
        if nontrivial:
            s = json.dumps(jsonable(case), sort_keys=True)
            self.nontrivial.add(hashlib.blake2b((test + s).encode(), digest_size=8).digest())
            k = self.sample_labels.get(lab, 0)
            if k < 2 and len(self.samples) < 60 and len(s) < 3000:
                self.sample_labels[lab] = k + 1
                self.samples.append({'test': lab, 'case': jsonable(case)})

    def batch(self, test, evaluations, distinct, samples=()):
        """Count a batch of numeric cases (already counted distinct)."""
        self.evaluations += int(evaluations)
        self.nontrivial_extra += int(distinct)
        self.labels[test] = self.labels.get(test, 0) + int(evaluations)
        for s in samples:
            if len(self.samples) < 60:
                self.samples.append({'test': test, 'case': jsonable(s)})

    def write_evidence(self):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {
            'property': self.prop_id, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.nontrivial) + self.nontrivial_extra,
                'rule': ' '.join(self.rules),
                'samples': self.samples,
                'by_test': dict(sorted(self.labels.items())),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': self.violations,
        }
        with open(os.path.join(d, self.prop_id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    # --- outcomes ---------------------------------------------------------
    def is_known(self, v):
        for k in self.known:
            if v.sig is not None and k['signature'] == v.sig:
                if v.sig not in self.known_seen:
                    self.known_seen.add(v.sig)
                    if not self.quiet:
                        print('KNOWN-FINDING: property=%s %s' % (self.prop_id, k['what']), flush=True)
                return True
        return False

    def report(self, test, case, v):
        """A violation that survived shrinking."""
        if self.is_known(v):
            return
        self.violations += 1
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        body = {'property': self.prop_id, 'test': test, 'case': jsonable(case), 'what': v.msg, 'signature': v.sig,
                'seed': self.seed}
        text = json.dumps(body, indent=1)
        path = os.path.join(d, '%s-%s.json' % (self.prop_id, hashlib.sha1(text.encode()).hexdigest()[:12]))
        with open(path, 'w') as f:
            f.write(text)
        print('%s / %s: %s' % (self.prop_id, test, v.msg[:3000]))
        print('case: %s' % json.dumps(jsonable(case))[:3000])
        print('VIOLATION property=%s replay=%s' % (self.prop_id, path), flush=True)
        raise Done()

    # --- running ----------------------------------------------------------
    def prop(self, name, strategy, fn, n, workers=8, each=10):
        """Run fn(case) on n generated cases, in processes of at least `each`; shrink and report the first failure."""
        if self.replaying is not None:
            if self.replaying[0] == name:
                self.replayed = True
                try:
                    fn(self.replaying[1])
                except (Violation, Stuck) as v:
                    self.report(name, self.replaying[1], v if isinstance(v, Violation) else Violation(str(v)))
            return
        workers = max(1, min(workers, n // each))
        if workers == 1:
            return self._search(name, name, strategy, fn, n)
        sys.stdout.flush()
        sys.stderr.flush()
        children = []
        for w in range(workers):
            r, o = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for rr, _ in children:
                        os.close(rr)
                    self._worker(o, name, '%s@%d' % (name, w), strategy, fn, n // workers + (w < n % workers))
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(o)
            children.append((r, pid))
        outs = []
        for r, pid in children:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status or not data:
                raise CheckError('a worker of %s ended with status %d' % (name, status))
            outs.append(pickle.loads(data))
        for o in outs:
            self.evaluations += o['evaluations']
            self.nontrivial |= o['nontrivial']
            self.nontrivial_extra += o['nontrivial_extra']
            for k, v in o['labels'].items():
                self.labels[k] = self.labels.get(k, 0) + v
            for s in o['samples']:
                k = self.sample_labels.get(s['test'], 0)
                if k < 2 and len(self.samples) < 60:
                    self.sample_labels[s['test']] = k + 1
                    self.samples.append(s)
            for k in self.known:
                if k['signature'] in o['known_seen']:
                    self.is_known(Violation('', k['signature']))
        for o in outs:
            if o['failure'] and o['failure'][0] == 'violation':
                self.report(name, o['failure'][1], Violation(o['failure'][2], o['failure'][3]))
        for o in outs:
            if o['failure']:
                raise CheckError(o['failure'][1])

    def _worker(self, out, name, seed_name, strategy, fn, n):
        self.evaluations = self.nontrivial_extra = 0
        self.nontrivial, self.labels, self.samples, self.sample_labels, self.known_seen = set(), {}, [], {}, set()
        self.quiet = True
        failure = None

        def captured(test, case, v):
            nonlocal failure
            if self.is_known(v):
                return
            failure = ('violation', jsonable(case), v.msg, v.sig)
            raise Done()
        self.report = captured
        try:
            self._search(name, seed_name, strategy, fn, n)
        except Done:
            pass
        except CheckError as e:
            failure = ('error', str(e))
        except Stuck as e:
            failure = ('violation', None, str(e), None)
        except BaseException:
            failure = ('error', traceback.format_exc())
        with os.fdopen(out, 'wb') as f:
            f.write(pickle.dumps({k: getattr(self, k) for k in (
                'evaluations', 'nontrivial', 'nontrivial_extra', 'labels', 'samples', 'known_seen')} | {'failure': failure}))

    def _search(self, name, seed_name, strategy, fn, n):
        last = {}

        def body(case):
            if 'until' in last and time.time() > last['until'] and case != last['case']:
                return      # enough shrinking
            try:
                fn(case)
            except Violation as v:
                if self.is_known(v):
                    return
                last['case'], last['v'] = case, v
                last.setdefault('until', time.time() + (100 if self.tier == 'quick' else 300))
                raise
            except Stuck as s:
                if 'v' not in last:
                    self.report(name, case, Violation(str(s)))
                return      # while shrinking: not the same failure
            except (Done, CheckError):
                raise
            except RecursionError:
                return

        test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink))(
            hypothesis.seed(self.seed_for(seed_name))(given(strategy)(body)))
        try:
            test()
        except Violation as v:
            self.report(name, last.get('case'), last.get('v', v))
        except hypothesis.errors.Flaky as e:
            # The oracle saw a failure that did not repeat on the same input.
            v = last.get('v')
            if v is None:
                raise CheckError('flaky: %r' % (e,))
            self.report(name, last.get('case'), v)

    def fixed(self, name, cases, fn):
        """Run fn on explicit cases (regressions of repaired defects, exhaustive small spaces)."""
        if self.replaying is not None:
            if self.replaying[0] == name:
                self.replayed = True
                try:
                    fn(self.replaying[1])
                except (Violation, Stuck) as v:
                    self.report(name, self.replaying[1], v if isinstance(v, Violation) else Violation(str(v)))
            return
        for c in cases:
            try:
                fn(c)
            except (Violation, Stuck) as v:
                self.report(name, c, v if isinstance(v, Violation) else Violation(str(v)))

    def numeric(self, name, run):
        """A vectorised test: run(self) yields/raises itself; run(case) replays one case."""
        if self.replaying is not None:
            if self.replaying[0] == name:
                self.replayed = True
                run(self.replaying[1])
            return
        run(None)


def main(prop, fn, argv):
    ctx = Ctx(prop)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            r = json.load(f)
        ctx.replaying = (r['test'], r['case'])
    code = 2
    try:
        fn(ctx)
        code = 0
    except Done:
        code = 1
    except CheckError as e:
        print('ERROR %s: %s' % (prop, e), file=sys.stderr)
    except Stuck as e:
        try:
            ctx.report('run', None, Violation(str(e)))
        except Done:
            code = 1
    except KeyboardInterrupt:
        print('ERROR interrupted', file=sys.stderr)
    except BaseException:
        traceback.print_exc()
    if ctx.replaying is not None:
        if not ctx.replayed and code == 0:
            print('ERROR: replay names an unknown test', file=sys.stderr)
            code = 2
        return code
    try:
        ctx.write_evidence()
    except BaseException:
        traceback.print_exc()
        code = 2 if code != 1 else 1
    print('%s: exit %d, %d cases, %d distinct non-trivial, %.1f s' % (
        prop, code, ctx.evaluations, len(ctx.nontrivial) + ctx.nontrivial_extra, time.time() - ctx.t0))
    return code
