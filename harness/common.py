"""Shared machinery of the runtime monitors: verdicts, evidence, known findings, scratch space.

Runs under the repository's interpreter (PyPy 3.9).  Nothing here imports codeprep.
"""
import atexit
import hashlib
import json
import os
import pickle
import random
import signal
import re
import shutil
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CODEPREP_REPO', '/repo')


class Inconclusive(Exception):
    """The deciding monitor could not give a verdict."""


def stable_hash(obj):
    return hashlib.sha1(repr(obj).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def crash_kind(exc):
    """Description of an exception whose innermost frame of interest is in the code under test, else None."""
    frames = traceback.extract_tb(exc.__traceback__)
    inner = [f for f in frames if os.path.realpath(f.filename).startswith((os.path.realpath(REPO) + os.sep, VERIF + os.sep))]
    if inner and not os.path.realpath(inner[-1].filename).startswith(VERIF + os.sep):
        f = inner[-1]
        return '%s: %s (in %s, %s:%d)' % (type(exc).__name__, exc, f.name, os.path.basename(f.filename), f.lineno)
    return None


def shorten(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n // 2] + ' ...[%d chars]... ' % (len(s) - n) + s[-n // 2:]


class KnownFindings(object):
    """KNOWN_FINDINGS.json: list of {property, key, what}.  `key` names a mechanism; a monitor computes the
    mechanism of a violation from the violating input itself (never from a hash of the case)."""

    def __init__(self, pid):
        path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
        entries = []
        if os.path.exists(path):
            with open(path) as f:
                entries = json.load(f)['findings']
        self.entries = {e['key']: e for e in entries if e['property'] == pid}
        self.seen = Counter()

    def match(self, key):
        if key and key in self.entries:
            self.seen[key] += 1
            return True
        return False


class Check(object):
    MAX_REPORTED = 5

    def __init__(self, pid, tier, seed, level='exploration', rule=''):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.level = level
        self.rule = rule
        self.rng = random.Random('%s/%s/%s' % (pid, tier, seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counters = Counter()
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.known = KnownFindings(pid)
        self.required = {}
        self.notes = {}
        self.thorough = tier == 'thorough'
        self._scratch = None
        self._quiet = False

    # ---- budgets
    def budget(self, quick_s, thorough_s):
        self.deadline = self.t0 + (thorough_s if self.thorough else quick_s)
        return self

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def time_left(self):
        return self.deadline - time.time()

    def go_on(self):
        return len(self.violations) < self.MAX_REPORTED and self.time_left() > 0

    # ---- scratch
    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = os.environ['VERIF_SCRATCH']
        return self._scratch

    # ---- observations
    def evaluated(self, nontrivial_key=None, n=1):
        self.evaluations += n
        if nontrivial_key is not None:
            self.distinct.add(stable_hash(nontrivial_key))

    def count(self, name, n=1):
        self.counters[name] += n

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=lambda o: shorten(o, 400))))

    def require(self, **mins):
        """Counters that must reach a minimum, otherwise the run observed too little to decide anything."""
        self.required.update({k: max(1, m // 4) for k, m in mins.items()})  # the minima are a quarter of what a quiet machine does

    def violation(self, what, replay, key=None):
        if self.known.match(key):
            return False
        self.violations.append((what, replay, key))
        if len(self.violations) <= self.MAX_REPORTED and not self._quiet:
            print('  violation: ' + shorten(what, 1500), flush=True)
        return True

    # ---- parallel workers
    def fork_workers(self, fn, n=8, **kw):
        """Run fn(check_i, index, **kw) in n forked processes, each with its own random stream; merge what they observed.
        A worker that dies without a report makes the run inconclusive."""
        pipes = []
        sys.stdout.flush()
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.close(r)
                    for rr, _, _ in pipes:
                        os.close(rr)
                    self.rng = random.Random('%s/%s/%s/w%d' % (self.pid, self.tier, self.seed, i))
                    self._quiet = True
                    self.evaluations, self.distinct, self.counters, self.samples = 0, set(), Counter(), []
                    self.violations, self.notes, self.known.seen = [], {}, Counter()
                    error = None
                    if os.environ.get('VERIF_DEBUG'):
                        import faulthandler
                        faulthandler.register(signal.SIGUSR1, file=sys.__stderr__)
                    try:
                        fn(self, i, **kw)
                    except Inconclusive as e:
                        error = ('inconclusive', str(e))
                    except BaseException as e:
                        error = ('raised', crash_kind(e), traceback.format_exc())
                    data = pickle.dumps((self.evaluations, self.distinct, self.counters, self.samples,
                                         [(x, json.dumps(y, default=repr), z) for x, y, z in self.violations],
                                         self.known.seen, self.notes, error))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    rc = 9
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            os.close(w)
            pipes.append((r, pid, i))
        problems = []
        for r, pid, i in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                problems.append(('raised', None, 'worker %d died without a report' % i))
                continue
            ev, distinct, counters, samples, violations, seen, notes, error = pickle.loads(data)
            self.evaluations += ev
            self.distinct |= distinct
            self.counters.update(counters)
            self.samples = (self.samples + samples)[:6]
            for k, v in notes.items():
                if isinstance(v, list) and isinstance(self.notes.get(k), list):
                    self.notes[k] = sorted(set(self.notes[k]) | set(v))
                else:
                    self.notes[k] = v
            for x, y, z in violations:
                self.violations.append((x, json.loads(y), z))
                if len(self.violations) <= self.MAX_REPORTED:
                    print('  violation: ' + shorten(x, 1500), flush=True)
            self.known.seen.update(seen)
            if error:
                problems.append(error)
        for p in problems:
            if p[0] == 'inconclusive':
                if not self.violations:
                    raise Inconclusive(p[1])
            elif p[1]:
                self.violation('uncaught exception in the code under test: ' + p[1], {'traceback': p[2]})
            elif not self.violations:
                raise RuntimeError('worker failed: ' + p[2])
            else:
                print(p[2], file=sys.stderr)

    # ---- verdict
    def finish(self):
        wall = time.time() - self.t0
        for key, n in sorted(self.known.seen.items()):
            print('KNOWN-FINDING: property=%s %s [%s, %d occurrences]'
                  % (self.pid, self.known.entries[key]['what'], key, n))
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples or ['(none)'], 'observed': dict(sorted(self.counters.items()))}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)}
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        tmp = os.path.join(evdir, '.%s.json.%d' % (self.pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(evdir, self.pid + '.json'))
        if self.violations:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            for i, (what, replay, key) in enumerate(self.violations[:self.MAX_REPORTED]):
                path = os.path.join(rdir, '%s-%s-%d-%d.json' % (self.pid, self.tier, self.seed, i))
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'what': what,
                               'mechanism': key, 'replay': replay,
                               'rerun': 'VERIF_SEED=%d %s/run.sh %s %s' % (self.seed, VERIF, self.pid, self.tier)},
                              f, indent=1, default=repr)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('%s: VIOLATED (%d), %d evaluations, %.1f s' % (self.pid, len(self.violations), self.evaluations, wall))
            sys.stdout.flush()
            return 1
        missing = {k: (self.counters[k], v) for k, v in self.required.items() if self.counters[k] < v}
        if missing or not self.evaluations:
            print('%s: INCONCLUSIVE, monitors observed too little: %s; observed %s' % (self.pid, missing, dict(self.counters)))
            return 3
        print('%s: held on %d evaluations (%d distinct non-trivial), %.1f s; observed %s'
              % (self.pid, self.evaluations, len(self.distinct), wall, dict(sorted(self.counters.items()))))
        return 0
