"""C15: several databases in one process.  All interleavings of operation scripts on two database objects; all histories of replacing the stored files
between opens; all schedules of two threads with a bounded number of preemptions at the lines of the package.  Oracle: each database used alone."""
import io
import itertools
import os
import shutil
import sys
import threading
import time

import pykeepass
from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail, first_diff
from .c14 import mask

LEVEL = 'model_checking'
PKG = os.path.dirname(os.path.abspath(pykeepass.__file__)) + os.sep


def doc(v, n):
    """Contents of the two databases differ in everything, but use the same identifiers and names where they can"""
    f = dict(Title='t', UserName='u', Password='pw of %d' % n, URL='l%d' % n, Notes='n%d' % n, otp='o%d' % n)
    e0 = C.entry(v, 'e0', f, custom=[('k', 'v%d' % n, True)], tags='a;b%d' % n, binaries=[('f%d' % n, 0)], history=[C.entry(v, 'e0', dict(f, Title='old%d' % n), custom=[('k', 'h%d' % n, True)])])
    e1 = C.entry(v, 'e1', dict(f, Title='s', Password='{REF:P@T:t}'))
    kids = [e0, C.group(v, 'g1', 'G', e1)]
    if n:
        kids.append(C.entry(v, 'e%d' % (n + 5), dict(f, Title='extra')))
    return C.document(v, C.group(v, 'root', 'Root', *kids), binaries3=[(b'data %d' % n, True)])


SPEC = {  # name: (version, cipher, stream, compression, kdf, password, key file)
    'a': (4, 'aes256', 'chacha20', True, 'aeskdf', 'first', None),
    'b': (4, 'chacha20', 'salsa20', False, 'argon2', 'second', b'key file of b'),
    'c': (3, 'aes256', 'salsa20', True, 'aeskdf', 'third', b'key file of c'),
    'd': (3, 'twofish', 'salsa20', True, 'aeskdf', 'fourth', None),
    'e': (4, 'twofish', 'chacha20', True, 'argon2id', None, b'key file of e'),
    'f': (4, 'aes256', 'chacha20', True, 'aeskdf', 'first', None),       # as a, other content and seeds
    'g': (3, 'aes256', 'salsa20', True, 'aeskdf', 'third', b'key file of c'),
}
FILES = {}
for _n, (_name, (_v, _ci, _st, _co, _kd, _pw, _kf)) in enumerate(SPEC.items()):
    _db = R.RefDB(doc(_v, _n), version=_v, cipher=_ci, stream=_st, compression=_co, kdf=R.cheap_kdf(_kd, _name), label=_name, binaries=[(1, b'data %d' % _n)] if _v == 4 else ())
    FILES[_name] = R.encode(_db, R.transform(_db, R.composite(_pw, _kf)))


class Side:
    """One database and the operations on it; `log` collects everything observable"""

    def __init__(self, name, d, tag):
        self.name, self.dir, self.tag = name, d, tag
        self.path, self.key = os.path.join(d, 'db%s.kdbx' % tag), os.path.join(d, 'db%s.key' % tag)
        self.pw, self.kf = SPEC[name][5:]
        with open(self.path, 'wb') as f:
            f.write(FILES[name])
        if self.kf:
            with open(self.key, 'wb') as f:
                f.write(self.kf)
        self.kp = None
        self.log = []

    def cred(self):
        return dict(password=self.pw, keyfile=self.key if self.kf else None)

    def need(self):
        if self.kp is None:
            self.kp = PyKeePass(self.path, **self.cred())
        return self.kp

    def note(self, x):
        self.log.append(mask(x, IDS))

    def decode(self, data):
        db = R.decode(data, comp=R.composite(self.pw, self.kf))
        return mask(K.ref_observe(db), IDS)

    def step(self, op):
        try:
            self.note((op, getattr(self, 'op_' + op)()))
        except core.Violation:
            raise
        except Exception as e:
            self.note((op, type(e).__name__, str(e)[:80].replace(self.dir, '@')))

    def op_open(self):
        self.kp = PyKeePass(self.path, **self.cred())
        return K.observe(self.kp)

    def op_open_stream(self):
        with open(self.path, 'rb') as f:
            data = f.read()
        self.kp = PyKeePass(io.BytesIO(data), self.pw, io.BytesIO(self.kf) if self.kf else None)
        return K.observe(self.kp)

    def op_open_wrong(self):
        PyKeePass(self.path, password='wrong', keyfile=self.key if self.kf else None)

    def op_header(self):
        kp = PyKeePass(self.path, decrypt=False)
        return kp.version, kp.encryption_algorithm, kp.kdf_algorithm, bytes(kp.database_salt)

    def op_key(self):
        return self.need().transformed_key, self.kp.version, self.kp.encryption_algorithm, self.kp.kdf_algorithm, bytes(self.kp.database_salt)

    def op_view(self):
        return K.observe(self.need())

    def op_search(self):
        kp = self.need()
        return ([e.password for e in kp.find_entries(title='t')], [e.url for e in kp.find_entries(tags=['a'], history=True)], [e.title for e in kp.find_entries(title='.*', regex=True)], kp.find_groups(name='G', first=True).path,
                kp.find_entries(string={'k': 'v0'}, first=True) is None, [a.filename for a in kp.attachments], [e.deref('password') for e in kp.entries])

    def op_edit(self):
        kp = self.need()
        e = kp.find_entries(title='t', first=True)
        e.password, e.notes = 'edited ' + self.name, 'note ' + self.name
        e.set_custom_property('k', 'edited ' + self.name, protect=True)
        e.save_history()
        return None

    def op_add(self):
        kp = self.need()
        n = len(kp.entries)
        e = kp.add_entry(kp.root_group, 'new%s%d' % (self.name, n), 'u', 'secret ' + self.name, tags=[self.name])
        e.add_attachment(kp.add_binary(b'bin of ' + self.name.encode()), 'nf')
        kp.add_group(kp.root_group, 'ng%d' % n)
        return None

    def op_trash(self):
        kp = self.need()
        es = [e for e in kp.entries if not e.path[:-1]]
        if es:
            kp.trash_entry(es[-1])
        return kp.recyclebin_group.name

    def op_binary(self):
        kp = self.need()
        if kp.binaries:
            kp.delete_binary(0)
        return list(kp.binaries)

    def op_save(self):
        self.need().save()
        with open(self.path, 'rb') as f:
            return self.decode(f.read())

    def op_save_stream(self):
        b = io.BytesIO()
        self.need().save(b)
        return self.decode(b.getvalue())

    def op_reload(self):
        self.need().reload()
        return K.observe(self.kp)

    def op_password(self):
        kp = self.need()
        kp.password = self.pw = 'changed ' + self.name
        return kp.password

    def op_password_save(self):
        self.op_password()
        return self.op_save()

    def op_fail(self):
        kp = self.need()
        try:
            kp.save(os.path.join(self.dir, 'no', 'dir.kdbx'))
        except OSError:
            pass
        kp.add_entry(kp.root_group, 'bad\x00', 'u', 'p')


IDS = {C.uid(l).hex for l in ['root', 'g1'] + ['e%d' % i for i in range(20)]}
OPS = [n[3:] for n in dir(Side) if n.startswith('op_')]
SOLO = {}


def solo(name, ops):
    """Log of the script run alone, in a process of its own history"""
    if (name, ops) not in SOLO:
        d = core.scratch()
        try:
            s = Side(name, d, name)
            for op in ops:
                s.step(op)
            SOLO[name, ops] = s.log
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return SOLO[name, ops]


def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield tuple(0 if i in pos else 1 for i in range(n + m))


def interleave(case):
    """All interleavings of two scripts; logs and files as in the runs alone"""
    names, scripts = case
    want = [solo(n, s) for n, s in zip(names, scripts)]
    k = 0
    for order in interleavings(len(scripts[0]), len(scripts[1])):
        d = core.scratch()
        try:
            sides = [Side(n, d, n + str(i) if names[0] == names[1] else n) for i, n in enumerate(names)]
            at = [0, 0]
            for i in order:
                sides[i].step(scripts[i][at[i]])
                at[i] += 1
            for s, w in zip(sides, want):
                expect(s.log == w, lambda: 'database %s in the order %s of %s: %s' % (s.name, order, scripts, first_diff(s.log, w)), 'interleaved')
            extra = set(os.listdir(d)) - {os.path.basename(x) for s in sides for x in (s.path, s.key)}
            expect(not extra, lambda: 'left files: %s' % extra)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        k += 1
    return 'same'


# ---------------------------------------------------------------- current files
def pad_to(data, n):
    return data + b' ' * (n - len(data))


VERS = []
for _i in range(3):     # three versions of one database: the same size, other content, seeds and key files
    _v = 4
    _kf = b'key file number %d' % _i
    _db = R.RefDB(doc(_v, 10 + _i), version=_v, compression=False, kdf=R.cheap_kdf('aeskdf', 'same salt' if _i < 2 else 'other salt'), label='ver%d' % (_i if _i else 0), binaries=[(1, b'data')])
    VERS.append((_db, _kf))


def version_file(i, key):
    db, _ = VERS[i]
    return R.encode(db, R.transform(db, R.composite('pw', VERS[key][1])))


VFILES = {(i, k): version_file(i, k) for i in range(3) for k in range(2)}


def current(case):
    """Database file and key file replaced between opens and reloads; same names, sizes and time stamps"""
    seq, = case
    d = core.scratch()
    try:
        path, key = os.path.join(d, 'db.kdbx'), os.path.join(d, 'k.key')

        def put(p, data):
            with open(p, 'wb') as f:
                f.write(data)
            os.utime(p, (1600000000, 1600000000))
        state = [0, 0]      # version stored, key file it was encrypted with
        onkey = 0           # key file stored
        put(path, VFILES[0, 0])
        put(key, VERS[0][1])
        kp = None
        shown = None
        for op in seq:
            if op[0] == 'db':
                state = [op[1], op[2]]
                put(path, VFILES[op[1], op[2]])
            elif op[0] == 'key':
                onkey = op[1]
                put(key, VERS[onkey][1])
            else:
                right = onkey == state[1]
                try:
                    if op[0] == 'open':
                        kp = PyKeePass(path, 'pw', key)
                    elif op[0] == 'open stream':
                        with open(path, 'rb') as f, open(key, 'rb') as g:
                            kp = PyKeePass(io.BytesIO(f.read()), 'pw', io.BytesIO(g.read()))
                    elif op[0] == 'reload':
                        if kp is None or hasattr(kp.filename, 'read'):
                            continue
                        kp.reload()
                    elif op[0] == 'save':
                        if kp is None or hasattr(kp.filename, 'read'):
                            continue
                        kp.save()
                        with open(path, 'rb') as f:
                            db = R.decode(f.read(), comp=R.composite('pw', VERS[onkey][1]))
                        eq(db.xml.find('Root/Group/Entry/String/Value').get('x') or K.ref_observe(db)['root']['entries'][0]['url'], shown, 'saved version')
                        os.utime(path, (1600000000, 1600000000))
                        state = ['saved', onkey]
                        sv = shown
                        continue
                except CredentialsError:
                    expect(not right, '%s: right credentials refused after %s' % (op[0], (seq,)), 'stale key')
                    continue
                expect(right, lambda: '%s with the wrong key file succeeded after %s' % (op[0], (seq,)), 'stale key')
                shown = kp.find_entries(title='t', first=True).url
                want = sv if state[0] == 'saved' else 'l%d' % (10 + state[0])
                eq(shown, want, '%s after %s shows' % (op[0], (seq,)), 'stale content')
        return len(seq)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- threads
class Sched:
    """Two threads, one running at a time; switches at given line events of the package.  A thread that makes no progress (waits for something the
    other one holds) loses its turn."""

    def __init__(self, bodies, plan):
        self.bodies, self.plan = bodies, plan       # plan: list of (thread, line event number) at which that thread is preempted
        self.cv = threading.Condition()
        self.turn = 0
        self.done = [False, False]
        self.count = [0, 0]
        self.beat = 0
        self.errors = [None, None]
        self.lines = [[], []]
        self.record = False

    def trace(self, me):
        at = {n for t, n in self.plan if t == me}

        def local(frame, event, arg):
            if event == 'line':
                self.beat += 1
                self.count[me] += 1
                if self.record:
                    self.lines[me].append((frame.f_code.co_filename, frame.f_lineno))
                if self.count[me] in at:
                    self.switch(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKG):
                return local
        return glob

    def switch(self, me):
        with self.cv:
            if self.done[1 - me]:
                return
            self.turn = 1 - me
            self.cv.notify_all()
            self.wait(me)

    def wait(self, me):
        last, n = self.beat, 0
        while self.turn != me:
            self.cv.wait(0.1)
            n = n + 1 if self.beat == last else 0
            last = self.beat
            if n >= 3:       # the other thread is blocked
                self.turn = me
                self.cv.notify_all()

    def run(self, me):
        with self.cv:
            self.wait(me)
        sys.settrace(self.trace(me))
        try:
            self.bodies[me]()
        except BaseException as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[me] = True
                self.turn = 1 - me
                self.cv.notify_all()

    def go(self):
        ts = [threading.Thread(target=self.run, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(30)
            if t.is_alive():
                fail('the threads do not finish (plan %s)' % (self.plan,), 'deadlock')
        for e in self.errors:
            if e is not None:
                raise e


def prepared(name, op, d, tag):
    s = Side(name, d, tag)
    if op not in ('open', 'open_stream', 'open_wrong', 'header'):
        s.need()
    return s


TSOLO = {}


def tsolo(name, op):
    if (name, op) not in TSOLO:
        d = core.scratch()
        try:
            s = prepared(name, op, d, 'x')
            s.step(op)
            TSOLO[name, op] = s.log
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return TSOLO[name, op]


def schedule(case):
    """Schedules plan lo..hi-1 of a pair of operations"""
    a, b, plans = case
    want = [tsolo(*a), tsolo(*b)]
    for plan in plans:
        d = core.scratch()
        try:
            sides = [prepared(*x, d, str(i)) for i, x in enumerate((a, b))]
            Sched([lambda: sides[0].step(a[1]), lambda: sides[1].step(b[1])], plan).go()
            for s, w, x in zip(sides, want, (a, b)):
                expect(s.log == w, lambda: '%s of %s in another thread than %s, preempted at %s: %s' % (x[1], x[0], [a, b], plan, first_diff(s.log, w)), 'threads')
            extra = set(os.listdir(d)) - {os.path.basename(x) for s in sides for x in (s.path, s.key)}
            expect(not extra, lambda: 'left files: %s' % extra)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return '%s/%s' % (a[1], b[1])


def samefile(case):
    """Two objects saving to one path: the file is one of the two, complete"""
    a, b, plans = case
    for plan in plans:
        d = core.scratch()
        try:
            sides = [prepared(x, 'save', d, str(i)) for i, x in enumerate((a, b))]
            target = os.path.join(d, 'target.kdbx')
            Sched([lambda: sides[0].kp.save(target), lambda: sides[1].kp.save(target)], plan).go()
            with open(target, 'rb') as f:
                data = f.read()
            ok = False
            for s in sides:
                try:
                    ok = ok or s.decode(data) == mask(K.observe(s.kp), IDS)
                except R.RefError:
                    pass
            expect(ok, lambda: 'two saves to one path leave neither database (preempted at %s)' % (plan,), 'same file')
            extra = set(os.listdir(d)) - {os.path.basename(x) for s in sides for x in (s.path, s.key)} - {'target.kdbx'}
            expect(not extra, lambda: 'left files: %s' % extra)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return 'one of both'


def line_events(name, op):
    """Line events of the operation: total, and first occurrences of each source line"""
    d = core.scratch()
    try:
        s = prepared(name, op, d, 'x')
        sc = Sched([lambda: s.step(op), lambda: None], [])
        sc.record = True
        sc.go()
        first, seen = [], set()
        for i, l in enumerate(sc.lines[0], 1):
            if l not in seen:
                seen.add(l)
                first.append(i)
        return len(sc.lines[0]), first
    finally:
        shutil.rmtree(d, ignore_errors=True)


REPLAY = dict(interleave=interleave, current=current, schedule=schedule, schedule2=schedule, samefile=samefile)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def main(chk):
    q = chk.quick
    chk.assumptions += ['threads are switched at lines of the package (and inside the operations only); operations of one database object are never run in two threads']
    scripts = [('open', 'edit', 'save'), ('open', 'add', 'save_stream', 'reload'), ('header', 'open_wrong', 'open'), ('open_stream', 'trash', 'view'), ('open', 'password_save', 'reload'),
               ('open', 'fail', 'search'), ('open', 'binary', 'save', 'key'), ('add', 'password', 'save'), ('key', 'open_wrong', 'edit', 'search')]
    pairs = [('a', 'b'), ('a', 'f'), ('c', 'g'), ('b', 'c'), ('d', 'e'), ('a', 'c'), ('a', 'a')] + ([] if q else [('d', 'a'), ('e', 'b'), ('c', 'c')])
    chk.run_cases('interleave', [(p, (s, t)) for p in pairs for s in scripts for t in scripts if not q or p in (('a', 'f'), ('b', 'c'), ('a', 'a')) or scripts.index(s) <= scripts.index(t)], interleave,
                  'database pairs x script pairs, all interleavings of each', chunk=2)
    fo = [('db', i, k) for i in range(3) for k in range(2)] + [('key', 0), ('key', 1)]
    uses = [('open',), ('open stream',), ('reload',), ('save',)]
    seqs = []
    for n in (2, 3, 4) + (() if q else (5,)):
        for s in itertools.product(fo + uses, repeat=n):
            if s[-1] in uses and s[0] in uses[:2] and not any(x == y for x, y in zip(s, s[1:])):
                seqs.append((s,))
    chk.run_cases('current', seqs, current, 'histories of replacing database and key file between opens, reloads and saves')
    tops = ('open', 'save', 'save_stream', 'open_wrong', 'search', 'edit', 'header', 'add')
    tp = [(('a', x), ('b', y)) for x in ('open', 'save') for y in tops] + [(('c', x), ('g', y)) for x in ('open', 'save_stream') for y in ('open', 'save', 'search', 'add')] + [
        (('d', 'open'), ('e', 'open')), (('d', 'save'), ('e', 'open')), (('e', 'save'), ('d', 'save')), (('a', 'open'), ('f', 'open')), (('a', 'save'), ('f', 'save')), (('b', 'open'), ('c', 'save')),
        (('a', 'search'), ('f', 'search')), (('a', 'edit'), ('f', 'edit')), (('a', 'add'), ('f', 'trash')), (('e', 'search'), ('c', 'edit'))]
    ev = {}
    for x in {y for p in tp for y in p} | {(n, 'save') for n in 'abcf'}:
        ev[x] = line_events(*x)
    cases = []
    for a, b in tp:
        step = 40 if q and a[0] in 'de' else 11 if q else 1      # Twofish is slow; first occurrences of every line are always included
        for x, y in ((a, b), (b, a)):
            if x == y:
                continue
            pts = sorted(set(range(1, ev[x][0] + 1, step)) | set(ev[x][1]))
            if len(pts) > 300 and q:
                pts = sorted(set(pts[::len(pts) // 200 + 1]) | set(ev[x][1]))
            cases += [(x, y, [[(0, n)] for n in c]) for c in chunks(pts, 16)]
    chk.run_cases('schedule', cases, schedule, 'thread pairs x every preemption point (1 preemption)', chunk=1)
    cases = []
    two = [(('a', 'open'), ('f', 'open')), (('a', 'save_stream'), ('f', 'save_stream')), (('c', 'open'), ('g', 'open')), (('b', 'open'), ('a', 'save_stream'))]
    for x in {y for p in two for y in p}:
        ev.setdefault(x, line_events(*x))
    for a, b in two:
        p1, p2 = ev[a][1], ev[b][1]
        if q:
            p1, p2 = p1[::5], p2[::6]
        cases += [(a, b, [[(0, n), (1, m)] for m in c]) for n in p1 for c in chunks(p2, 32)]
    chk.run_cases('schedule2', cases, schedule, 'thread pairs x pairs of preemption points at the first occurrence of each line (2 preemptions)', chunk=1)
    cases = []
    for a, b in (('a', 'f'), ('b', 'c'), ('c', 'a')):
        pts = sorted(set(ev[a, 'save'][1]) | set(range(1, ev[a, 'save'][0] + 1, 5 if q else 1)))
        cases += [(a, b, [[(0, n)] for n in c]) for c in chunks(pts, 16)]
    chk.run_cases('samefile', cases, samefile, 'two saves to one path, every preemption point', chunk=1)
