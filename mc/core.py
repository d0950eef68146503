"""Exploration engine shared by all checks.

Two exhaustive explorers over the real code, both deterministic and both replayable:

* `run_cases`   - every case of a finite, explicitly constructed product of domains is executed;
* `explore`     - breadth-first search over operation histories of a `Machine` (real object + reference
                  model in lock step).  A state is the history reaching it; every transition re-creates a
                  fresh real object and replays the history, so nothing leaks between executions.
                  States are merged only when the complete observable XML, the reference model *and* a
                  fingerprint of hidden mutable state (unexpected attributes, module globals) agree.

Work is spread over forked workers; a worker that dies or hangs is reported with the case it was running.
"""
import collections
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_LIMIT = float(os.environ.get('VERIF_CASE_LIMIT', '60'))


def nproc():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


class Violation(Exception):
    """Raised by a case or a machine when the property does not hold.

    `sig` identifies the failure class for the known-findings file; it defaults to the message."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig or msg


def fail(msg, sig=None):
    raise Violation(msg, sig)


def expect(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


def eq(got, want, what, sig=None):
    if got != want or type(got) is not type(want):
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)), sig)


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else '%s...<%d chars>' % (r[:n], len(r))


def first_diff(a, b, path=''):
    """Human-readable position of the first difference of two nested tuples/dicts/lists"""
    if type(a) is not type(b):
        return '%s: %s != %s' % (path or '.', short(a), short(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a or k not in b:
                return '%s[%r]: %s' % (path, k, 'missing' if k not in a else 'unexpected %s' % short(a[k]))
            if a[k] != b[k]:
                return first_diff(a[k], b[k], '%s[%r]' % (path, k))
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d != %d: %s != %s' % (path or '.', len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, '%s[%d]' % (path, i))
        return None
    return None if a == b else '%s: %s != %s' % (path or '.', short(a), short(b))


# ---------------------------------------------------------------- worker pool

class _Alarm(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Alarm()


def guarded(fn, item):
    """Run fn(item) with a time limit; returns (kind, payload)."""
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        return _limited(fn, item)
    except _Alarm:      # fired after the case had ended
        return 'violation', ('did not finish within %.0f s' % CASE_LIMIT, 'hang')


def _limited(fn, item):
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        return 'ok', fn(item)
    except Violation as v:
        return 'violation', (v.msg, v.sig)
    except _Alarm:
        return 'violation', ('did not finish within %.0f s' % CASE_LIMIT, 'hang')
    except RecursionError:
        return 'violation', ('RecursionError', 'recursion')
    except MemoryError:
        return 'violation', ('MemoryError', 'memory')
    except Exception as e:
        tb = traceback.format_exc()
        return 'violation', ('unexpected %s: %s' % (type(e).__name__, e), 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def pmap(fn, items, chunk=None, stop=None):
    """Apply fn to every item in forked workers (state of the parent is inherited, nothing is shared).

    Yields (index, kind, payload).  Items are dealt dynamically in chunks.  A worker that dies or makes no
    progress for 3 * CASE_LIMIT is killed and the item it was on is reported as a violation."""
    items = list(items)
    n = nproc()
    if not items:
        return
    chunk = chunk or max(1, min(64, len(items) // (n * 8) or 1))
    chunks = collections.deque((i, min(len(items), i + chunk)) for i in range(0, len(items), chunk))
    workers = {}

    def spawn():
        r1, w1 = os.pipe()      # results
        r2, w2 = os.pipe()      # orders
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r1)
                os.close(w2)
                for w in workers.values():
                    os.close(w['r'])
                    os.close(w['w'])
                _worker(fn, items, r2, w1)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        workers[pid] = dict(r=r1, w=w2, buf=b'', cur=None, last=time.time(), pos=None)
        deal(pid)

    def deal(pid):
        w = workers[pid]
        if chunks:
            c = chunks.popleft()
            w['cur'] = c
            w['pos'] = c[0]
            os.write(w['w'], struct.pack('<II', *c))
        else:
            w['cur'] = None
            os.write(w['w'], struct.pack('<II', 0, 0))

    def reap(pid, kill=False):
        w = workers.pop(pid)
        if kill:
            os.kill(pid, signal.SIGKILL)
        os.close(w['r'])
        os.close(w['w'])
        _, st = os.waitpid(pid, 0)
        return w, st

    for _ in range(min(n, len(chunks))):
        spawn()
    try:
        while workers:
            fds = {w['r']: pid for pid, w in workers.items()}
            ready, _, _ = select.select(list(fds), [], [], 1.0)
            now = time.time()
            for fd in ready:
                pid = fds[fd]
                w = workers[pid]
                data = os.read(fd, 1 << 16)
                w['last'] = now
                if not data:
                    cur, pos = w['cur'], w['pos']
                    w, st = reap(pid)
                    if cur is not None:
                        yield pos, 'violation', ('the process running this case died (status %d)' % st, 'died')
                        if pos + 1 < cur[1]:
                            chunks.append((pos + 1, cur[1]))
                        if chunks:
                            spawn()
                    continue
                w['buf'] += data
                while len(w['buf']) >= 4:
                    ln = struct.unpack('<I', w['buf'][:4])[0]
                    if len(w['buf']) < 4 + ln:
                        break
                    msg = pickle.loads(w['buf'][4:4 + ln])
                    w['buf'] = w['buf'][4 + ln:]
                    if msg is None:
                        deal(pid)
                    else:
                        i, kind, payload = msg
                        w['pos'] = i + 1
                        yield i, kind, payload
                        if stop is not None and stop():
                            return
            for pid in list(workers):
                w = workers[pid]
                if w['cur'] is not None and now - w['last'] > 3 * CASE_LIMIT:
                    cur, pos = w['cur'], w['pos']
                    reap(pid, kill=True)
                    yield pos, 'violation', ('did not finish within %.0f s' % (3 * CASE_LIMIT), 'hang')
                    if pos + 1 < cur[1]:
                        chunks.append((pos + 1, cur[1]))
                    if chunks:
                        spawn()
    finally:
        for pid in list(workers):
            try:
                reap(pid, kill=True)
            except OSError:
                pass


def _worker(fn, items, r, w):
    def send(obj):
        b = pickle.dumps(obj)
        b = struct.pack('<I', len(b)) + b
        while b:
            b = b[os.write(w, b):]
    while True:
        d = os.read(r, 8)
        if len(d) < 8:
            return
        a, b = struct.unpack('<II', d)
        if (a, b) == (0, 0):
            return
        for i in range(a, b):
            kind, payload = guarded(fn, items[i])
            send((i, kind, payload))
        send(None)


# ---------------------------------------------------------------- check context

class Check:
    def __init__(self, pid, level, tier, seed, max_report=5):
        self.pid, self.level, self.tier, self.seed = pid, level, tier, seed
        self.t0 = time.time()
        self.cov = collections.OrderedDict()
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.max_report = max_report
        self.parts = []
        self.exhaustive = True
        self.samples = []
        self.hits = self.hangs = 0

    @property
    def quick(self):
        return self.tier == 'quick'

    def stop(self):
        return len(self.violations) >= self.max_report or self.hits >= 200 or self.hangs >= 16 and self.violations

    def report(self, part, case, msg, sig):
        for k in self.known:
            if known_matches(k, part, case, msg, sig):
                self.known_hit.setdefault(k['id'], k)
                return
        self.hits += 1
        self.hangs += sig in ('hang', 'died', 'memory')
        for v in self.violations:
            if v['part'] == part and v['sig'] == sig and len(self.violations) > 1:
                return
        self.violations.append(dict(property=self.pid, part=part, case=case, message=msg, sig=sig))

    # ---- explorer 1: finite product of cases
    def run_cases(self, part, cases, fn, rule, chunk=None, nontrivial=None):
        """fn(case) raises Violation, or returns an outcome label (hashable, small)."""
        cases = list(cases)
        outcomes = collections.Counter()
        n = 0
        t = time.time()
        if not self.stop():
            for i, kind, payload in pmap(fn, cases, chunk, self.stop):
                n += 1
                if kind == 'violation':
                    outcomes['VIOLATION'] += 1
                    self.report(part, cases[i], *payload)
                else:
                    outcomes[payload if payload is None or isinstance(payload, str) else repr(payload)] += 1
        if n < len(cases):
            self.exhaustive = False
        distinct = len({repr(c) for c in cases})
        if cases:
            k = self.seed % len(cases)
            self.samples.append({'part': part, 'case': jsonable(cases[0])})
            self.samples.append({'part': part, 'case': jsonable(cases[k])})
        self.parts.append(dict(part=part, kind='cases', rule=rule, cases=len(cases), executed=n, distinct=distinct,
                               outcomes=dict(sorted(outcomes.items(), key=lambda x: (-x[1], x[0]))[:20]),
                               distinct_outcomes=len(outcomes), wall_s=round(time.time() - t, 2)))
        return outcomes

    # ---- explorer 2: breadth-first search over histories
    def explore(self, part, machine, depth, dedupe_from=0, max_states=None):
        """`machine(history)` is called in a worker: it replays history and returns
        (key, [enabled ops], label).  It raises Violation when the last step breaks the property."""
        t = time.time()
        seen = set()
        frontier = [()]
        states = transitions = 0
        outcomes = collections.Counter()
        levels = []
        capped = False
        maxdepth = 0
        sample = None
        for d in range(depth + 1):
            if not frontier or self.stop():
                break
            nxt = []
            new = 0
            for i, kind, payload in pmap(machine, frontier, None, self.stop):
                h = frontier[i]
                transitions += bool(h)
                if kind == 'violation':
                    outcomes['VIOLATION'] += 1
                    self.report(part, list(h), *payload)
                    continue
                key, ops, label = payload
                outcomes[label] += 1
                sample = sample or (len(h) == 2 and [list(o) for o in h]) or None
                if d >= dedupe_from:
                    if key in seen:
                        continue
                    seen.add(key)
                states += 1
                new += 1
                maxdepth = max(maxdepth, len(h))
                nxt.append((i, h, ops))
            nxt.sort(key=lambda x: x[0])
            levels.append(dict(depth=d, executed=len(frontier), new_states=new))
            if d == depth:
                break
            frontier = [h + (tuple(o),) for _, h, ops in nxt for o in ops]
            if max_states and len(frontier) > max_states:
                frontier = frontier[:max_states]
                capped = True
        if capped:
            self.exhaustive = False
        self.samples.append({'part': part, 'history': jsonable(sample)})
        self.parts.append(dict(part=part, kind='bfs', depth_bound=depth, completed_depth=maxdepth, states=states,
                               transitions=transitions, capped=capped, levels=levels,
                               outcomes=dict(outcomes.most_common(25)), distinct_outcomes=len(outcomes),
                               wall_s=round(time.time() - t, 2)))

    # ---- result
    def finish(self):
        bfs = [p for p in self.parts if p['kind'] == 'bfs']
        cas = [p for p in self.parts if p['kind'] == 'cases']
        cov = collections.OrderedDict()
        ncase = sum(p['executed'] for p in cas)
        trans = sum(p['transitions'] for p in bfs)
        st = sum(p['states'] for p in bfs)
        if self.level == 'model_checking':
            cov['states'] = st + sum(p['distinct'] for p in cas)
            cov['transitions'] = trans + ncase
            cov['traces_validated_against_impl'] = trans + ncase
        cov['evaluations'] = ncase + trans
        cov['distinct_nontrivial'] = sum(p['distinct'] for p in cas) + st
        cov['rule'] = ('exhaustive enumeration of the finite spaces listed under "parts"; every execution runs the real '
                       'code and is compared with the reference; a case is counted once per distinct input/history '
                       'and, for searches, once per distinct state')
        cov['samples'] = self.samples[:12]
        cov['exhaustive'] = self.exhaustive and not self.violations
        cov['parts'] = self.parts
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))
        for p in self.parts:
            print('%s %s: %s' % (self.pid, p['part'], {k: v for k, v in p.items() if k in (
                'executed', 'states', 'transitions', 'distinct_outcomes', 'completed_depth', 'capped', 'wall_s')}))
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            for n, v in enumerate(self.violations):
                path = os.path.join(EVID, 'replay-%s-%d.json' % (self.pid, n))
                v = dict(v, case=jsonable(v['case']))
                v['replay_cmd'] = './check %s --replay %s' % (self.pid, path)
                with open(path, 'w') as f:
                    json.dump(v, f, indent=1, default=str)
                print('  %s: case %s\n    %s' % (v['part'], short(v['case'], 600), v['message'][:2000]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s OK: property held on everything explored (%.1f s)' % (self.pid, time.time() - self.t0))
        return 0


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, bytes):
        return {'__bytes__': x.hex()} if len(x) <= 4096 else {'__bytes_sha__': hashlib.sha256(x).hexdigest()}
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return repr(x)


def unjson(x):
    """Back to the form cases have in memory: lists become tuples"""
    if isinstance(x, dict):
        if '__bytes__' in x:
            return bytes.fromhex(x['__bytes__'])
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return tuple(unjson(v) for v in x)
    return x


def load_known(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def known_matches(k, part, case, msg, sig):
    m = k['match']
    return m.get('part') == part and m.get('sig') == sig and ('case' not in m or m['case'] == jsonable(case))


def scratch():
    """A fresh scratch directory, removed by the caller"""
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='pkmc.', dir=base)
