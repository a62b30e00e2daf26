"""Shared machinery of the checks: running TLC, binding it to the code in /repo,
verdicts, known findings and evidence.

Every check follows one pipeline:
  (A) TLC explores a configuration of the specification (spec/*.tla), checking
      its invariants, and prints the cases it enumerated;
  (B) the cases (plus seeded random ones of a larger scope) are executed on the
      real code in /repo;
  (C) TLC reads what was observed and decides, with the operators and actions
      of the same specification, whether the observation is allowed.  It prints
      one verdict per case, naming the clauses that fail.
"""
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = 8
SCALE = float(os.environ.get('VERIF_SCALE', '1'))
# (development only: remember what TLC answered, to try many changes to the code)
CACHE = os.environ.get('VERIF_TLC_CACHE')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class CheckError(Exception):
    """The machinery failed: neither 'held' nor 'violated'."""


class TlcResult:
    def __init__(self):
        self.prints, self.states, self.distinct, self.out = [], 0, 0, ''
        self.violated = None        # name of a violated invariant, if any


def cache_path(module, *key):
    h = hashlib.sha1(repr((module, key)).encode())
    todo, seen = [module], set()
    while todo:
        path = os.path.join(SPEC, todo.pop() + '.tla')
        if path in seen or not os.path.exists(path):
            continue
        seen.add(path)
        with open(path) as f:
            text = f.read()
        h.update(text.encode())
        todo += re.findall(r'\w+', ' '.join(re.findall(r'(?:EXTENDS|INSTANCE)(.*(?:\n .*)*)', text)))
    return os.path.join(CACHE, h.hexdigest())


def tlc(scratch, module, cfg, files=(), workers=1, heap='2g', timeout=800, args=(), allow_violation=False):
    """Run TLC on spec module `module` with configuration text `cfg`."""
    path = CACHE and cache_path(module, cfg, sorted(dict(files).items()), args)
    if path and os.path.exists(path):
        with open(path, 'rb') as f:
            return pickle.load(f)
    r = run_tlc(scratch, module, cfg, files, workers, heap, timeout, args, allow_violation)
    if path:
        with open('%s.%d' % (path, threading.get_ident()), 'wb') as f:
            pickle.dump(r, f)
        os.rename('%s.%d' % (path, threading.get_ident()), path)
    return r


def run_tlc(scratch, module, cfg, files=(), workers=1, heap='2g', timeout=800, args=(), allow_violation=False):
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    for name in os.listdir(SPEC):
        if name.endswith('.tla'):
            os.symlink(os.path.join(SPEC, name), os.path.join(d, name))
    for name, content in dict(files).items():
        p = os.path.join(d, name)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, 'w') as f:
            f.write(content)
    with open(os.path.join(d, 'MC.cfg'), 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xmx' + heap, '-Xss512m',
           '-Djava.io.tmpdir=' + d, '-cp', JAR, 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-config', 'MC.cfg']
    cmd += list(args) + [module + '.tla']
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, check=False)
    except subprocess.TimeoutExpired as e:
        raise CheckError('TLC timed out on %s' % module) from e
    out = p.stdout.decode('utf-8', 'replace')
    r.out = out
    for line in out.split('\n'):
        if line.startswith('"@@'):
            try:
                r.prints.append(json.loads(json.loads(line)[2:]))
            except ValueError as e:
                raise CheckError('cannot read TLC output: %.300s' % line) from e
        m = re.match(r'(\d+) states generated, (\d+) distinct states', line)
        if m:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.match(r'The number of states generated: (\d+)', line)
        if m:
            r.states = r.distinct = int(m.group(1))
        m = re.match(r'Error: (?:Invariant|Action property|Temporal properties|Assumption)\s*(.*)', line)
        if m and r.violated is None:
            r.violated = m.group(1)
    if p.returncode != 0 and not (allow_violation and r.violated):
        raise CheckError('TLC failed (%d) on %s:\n%s' % (p.returncode, module, out[-3000:]))
    shutil.rmtree(d, ignore_errors=True)
    return r


def ndjson(records):
    return ''.join(json.dumps(r, separators=(',', ':')) + '\n' for r in records)


def octets(b):
    """Bytes (or latin-1 text) as a list of numbers, for TLA+."""
    if isinstance(b, str):
        b = b.encode('iso-8859-1')
    return list(b)


def split_even(xs, n):
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]


def pmap(func, items, jobs=JOBS):
    """Run func over items in worker processes, in order."""
    items = list(items)
    if len(items) < 2 or jobs < 2:
        return [func(x) for x in items]
    with concurrent.futures.ProcessPoolExecutor(
            min(jobs, len(items)), mp_context=multiprocessing.get_context('fork')) as ex:
        return list(ex.map(func, items))


def tmap(func, items, jobs=JOBS):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(func, items))


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.bad = []           # (key, clause list, replay data)
        self.known_hit = {}
        self.evals = 0
        self.known = self._load_known()

    def _load_known(self):
        path = os.path.join(VERIF, 'known_findings.jsonl')
        r = []
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith('{'):
                        x = json.loads(line)
                        if x.get('property') == self.pid:
                            r.append(x)
        return r

    def scale(self, quick, thorough):
        if SCALE != 1 and isinstance(quick, int) and quick >= 300:         # (development only)
            return max(100, int(quick * SCALE))
        return thorough if self.thorough else quick

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, **kw):
        r = tlc(self.scratch, module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.states
        return r

    def explore(self, module, cfg, **kw):
        """Model check a configuration; a violated invariant is an error of the spec."""
        return self.tlc(module, cfg, **kw)

    def judge(self, module, cfg, records, shards=JOBS, filename='cases.ndjson', heap='2g',
              extra_files=None, timeout=800):
        """Have TLC judge observed records.  Returns the verdict list, one per record,
        each a list of the names of failing clauses.

        The spec prints [i |-> index (1-based), bad |-> sequence or set of names] for each record.
        """
        if not records:
            return []
        idx = list(range(len(records)))
        known, path = {}, None
        if CACHE:
            path = cache_path(module, 'judge', self.pid, cfg, sorted((extra_files or {}).items()))
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    known = pickle.load(f)
            hashes = [hashlib.sha1(re.sub('"(raw|now)": "[^"]*"|"now": [0-9]+', '', json.dumps(x)).encode()).digest() for x in records]
            idx = [k for k in idx if hashes[k] not in known]
        parts = split_even(idx, min(shards, max(1, len(idx) // 60 + 1))) if idx else []

        def one(part):
            files = dict(extra_files or {})
            files[filename] = ndjson([records[k] for k in part])
            return run_tlc(self.scratch, module, cfg + 'CONSTANT N = %d\n' % len(part),
                           files=files, heap=heap, timeout=timeout)
        results = tmap(one, parts)
        verdicts = [None] * len(records)
        self.extra = [None] * len(records)
        for part, r in zip(parts, results):
            self.states += r.distinct
            self.transitions += r.states
            for v in r.prints:
                k = part[v['i'] - 1]
                verdicts[k] = sorted(str(x) for x in v['bad'])
                self.extra[k] = v
        if CACHE:
            for k, h in enumerate(hashes):
                if verdicts[k] is None and h in known:
                    verdicts[k], self.extra[k] = known[h]
            if os.environ.get('VERIF_TLC_CACHE_WRITE') and None not in verdicts:
                known.update(zip(hashes, zip(verdicts, self.extra)))
                with open(path, 'wb') as f:
                    pickle.dump(known, f)
        if None in verdicts:
            raise CheckError('no verdict for %d of %d records of %s' % (
                verdicts.count(None), len(verdicts), module))
        self.traces += len(records)
        return verdicts

    # -- results ----------------------------------------------------------
    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def fail(self, clauses, replay):
        """Record one failing case; `replay` is JSON-able data to reproduce it."""
        for k in self.known:
            if finding_matches(k, clauses, replay):
                self.known_hit.setdefault(k['id'], k)
                return
        self.bad.append((clauses, replay))

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['(none)']}
        if self.evals:
            cov['evaluations'] = self.evals
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.start, 2),
              'violations': len(self.bad)}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.bad:
            rdir = os.path.join(EVIDENCE, 'replay')
            os.makedirs(rdir, exist_ok=True)
            self.bad.sort(key=lambda x: len(json.dumps(x, default=str)))
            path = os.path.join(rdir, '%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump([{'clauses': c, 'case': r} for c, r in self.bad[:20]], f, indent=1, default=str)
            for c, r in self.bad[:3]:
                print('failing: %s %s' % (c, json.dumps(r, default=str)[:1200]))
            print('%d failing cases of %d' % (len(self.bad), max(self.traces, self.evals)))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.pid, self.states, self.transitions, self.traces, time.time() - self.start))
        return 0


def finding_matches(k, clauses, replay):
    """A known finding names the exact failing input (by its digest or by equality)."""
    match = k.get('match', {})
    if not match:
        return False
    for key, want in match.items():
        got = clauses if key == 'clauses' else replay.get(key) if isinstance(replay, dict) else None
        if got != want:
            return False
    return True


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def guarded(func, *args):
    """Run code under test; exceptions become data."""
    try:
        return ('ok', func(*args))
    except Exception as e:          # pylint: disable=broad-except
        return ('exc', '%s: %.200s' % (type(e).__name__, e))
