"""C24: files and streams.  Every call that touches a file, on every kind of source and target, successful and failing - also failing at every
call of a function of the package - compared by the descriptors the process has open and the state of the caller's streams."""
import hashlib
import io
import os
import pathlib
import shutil
import sys
import tempfile

from pykeepass import PyKeePass, create_database

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail

LEVEL = 'fault_enumeration'
PKG = os.path.join(os.path.realpath(core.REPO), 'pykeepass') + os.sep


def doc(v):
    return C.document(v, C.group(v, 'root', 'Root', C.entry(v, 'e', dict(Title='t', Password='p'))))


KEY = b'a key file of some length'
XMLKEY = ('<?xml version="1.0" encoding="utf-8"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>%s</Data></Key></KeyFile>' % C.b64(R.det('k1', 32))).encode()
XMLKEY2 = ('<?xml version="1.0" encoding="utf-8"?><KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="%s">%s</Data></Key></KeyFile>' % (hashlib.sha256(R.det('k1', 32)).hexdigest()[:8], R.det('k1', 32).hex())).encode()
KEYS = dict(none=None, text=KEY, xml=XMLKEY, xml2=XMLKEY2, empty=b'', raw32=R.det('k1', 32), hex64=R.det('k1', 32).hex().encode(), badxml=XMLKEY[:-9], big=R.det('kb', 200000))
DB = {(v, k): K.template(doc(v), tkpw='pw', keyfile=key, version=v)[0] for v in (3, 4) for k, key in KEYS.items()}


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return {n: t for n, t in out.items() if not t.startswith('/proc/')}


class Env:
    def __init__(self, v, kf):
        self.v, self.kf = v, kf
        self.dir = core.scratch()
        self.db = os.path.join(self.dir, 'db.kdbx')
        self.key = os.path.join(self.dir, 'key')
        self.data = DB[v, kf]
        self.keydata = KEYS[kf] if kf != 'none' else b'x'
        for p, d in ((self.db, self.data), (self.key, self.keydata), (os.path.join(self.dir, 'bad'), self.data[:len(self.data) * 2 // 3]), (os.path.join(self.dir, 'empty'), b''), (os.path.join(self.dir, 'nodb'), b'x' * 500)):
            with open(p, 'wb') as f:
                f.write(d)
        self.streams = []

    def path(self, n):
        return os.path.join(self.dir, n)

    def close(self):
        for s, _ in self.streams:
            s.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def stream(self, kind, data):
        if kind == 'BytesIO':
            s = io.BytesIO(data)
        elif kind == 'file':
            p = self.path('stream%d' % len(self.streams))
            with open(p, 'wb') as f:
                f.write(data)
            s = open(p, 'rb+')
        elif kind == 'raw':
            p = self.path('stream%d' % len(self.streams))
            with open(p, 'wb') as f:
                f.write(data)
            s = open(p, 'rb+', buffering=0)
        else:
            s = tempfile.SpooledTemporaryFile()
            s.write(data)
            s.seek(0)
        self.streams.append((s, data))
        return s

    def keyarg(self, how):
        if self.kf == 'none':
            return None
        return self.key if how == 'path' else pathlib.Path(self.key) if how == 'Path' else self.stream(how, self.keydata)

    def dbarg(self, how, which='db.kdbx'):
        p = self.path(which)
        if how == 'path':
            return p
        if how == 'Path':
            return pathlib.Path(p)
        with open(p, 'rb') as f:
            return self.stream(how, f.read())


HOW = ('path', 'Path', 'BytesIO', 'file', 'raw', 'spooled')


def scripts():
    """name -> function(env, how, keyhow): returns the call to judge (prepared outside of it)"""
    S = {}

    def s(f):
        S[f.__name__] = f
        return f

    def opened(e, how, kh):
        return PyKeePass(e.dbarg(how), password='pw', keyfile=e.keyarg(kh))

    @s
    def open_(e, how, kh):
        a, k = e.dbarg(how), e.keyarg(kh)
        return lambda: PyKeePass(a, password='pw', keyfile=k)

    @s
    def open_wrong(e, how, kh):
        a, k = e.dbarg(how), e.keyarg(kh)
        return lambda: PyKeePass(a, password='wrong', keyfile=k)

    @s
    def open_nokey(e, how, kh):
        a = e.dbarg(how)
        return lambda: PyKeePass(a, password='pw', keyfile=e.path('missing'))

    for bad in ('bad', 'empty', 'nodb', 'key', 'missing'):
        def f(e, how, kh, bad=bad):
            if bad == 'missing':
                a = e.path('missing')
            else:
                a = e.dbarg(how, bad)
            k = e.keyarg(kh)
            return lambda: PyKeePass(a, password='pw', keyfile=k)
        S['open_' + bad] = f

    @s
    def header(e, how, kh):
        a = e.dbarg(how)
        return lambda: PyKeePass(a, decrypt=False)

    @s
    def save(e, how, kh):
        kp = opened(e, 'path', kh)
        kp.entries[0].title = 'new'
        if how in ('path', 'Path'):
            t = e.dbarg(how)
        else:
            t = e.stream(how, b'')
            e.streams[-1] = (t, None)
        return lambda: kp.save(t)

    @s
    def save_same(e, how, kh):
        kp = opened(e, 'path', kh)
        return lambda: kp.save()

    @s
    def save_nodir(e, how, kh):
        kp = opened(e, 'path', kh)
        return lambda: kp.save(e.path('no/such/dir'))

    @s
    def save_todir(e, how, kh):
        kp = opened(e, 'path', kh)
        return lambda: kp.save(e.dir)

    @s
    def save_nokey(e, how, kh):
        kp = opened(e, 'path', kh)
        kp.keyfile = e.path('missing')
        return lambda: kp.save()

    @s
    def save_badtk(e, how, kh):
        kp = opened(e, 'path', kh)
        return lambda: kp.save(transformed_key='text')

    @s
    def reload(e, how, kh):
        kp = opened(e, 'path', kh)
        return lambda: kp.reload()

    @s
    def reload_bad(e, how, kh):
        kp = opened(e, 'path', kh)
        shutil.copyfile(e.path('bad'), e.db)
        return lambda: kp.reload()

    @s
    def dump(e, how, kh):
        kp = opened(e, 'path', kh)
        return lambda: kp.dump_xml(e.path('out.xml'))

    @s
    def dump_nodir(e, how, kh):
        kp = opened(e, 'path', kh)
        return lambda: kp.dump_xml(e.path('no/out.xml'))

    @s
    def many(e, how, kh):
        a, k = e.dbarg(how), e.keyarg(kh)

        def call():
            for i in range(60):
                kp = PyKeePass(a if isinstance(a, (str, pathlib.Path)) else io.BytesIO(e.data), password='pw', keyfile=k)
                kp.save(e.path('copy'))
                kp.save(io.BytesIO())
                try:
                    PyKeePass(e.path('bad'), password='pw', keyfile=k)
                except Exception:
                    pass
            return kp
        return call
    return S


SCRIPTS = scripts()


def judge(e, before, when):
    now = fds()
    expect(now == before, lambda: 'open files %s: %s' % (when, sorted(set(now.items()) ^ set(before.items()))), 'descriptors')
    for s, data in e.streams:
        expect(not s.closed, 'a stream of the caller was closed (%s)' % when)
        if data is not None:
            s.seek(0)
            expect(s.read() == data, 'a stream the library only had to read was changed (%s)' % when)
            s.seek(0)


def inside(frame):
    return frame is not None and os.path.realpath(frame.f_code.co_filename).startswith(PKG)


def tracer(hit):
    """Calls hit() at every call of a Python function of the package or by the package"""
    def glob(frame, event, arg):
        if event == 'call' and (inside(frame) or inside(frame.f_back)) and frame.f_code.co_name not in ('__exit__', '__del__', 'close', '__enter__'):
            hit()
    return glob


def traced(call, at):
    n = [0]

    class Injected(Exception):
        pass

    def hit():
        n[0] += 1
        if n[0] == at:
            sys.settrace(None)
            raise Injected('injected')
    sys.settrace(tracer(hit))
    try:
        return call()
    finally:
        sys.settrace(None)


def run(case):
    v, kf, name, how, kh = case
    e = Env(v, kf)
    try:
        call = SCRIPTS[name](e, how, kh)
        before = fds()
        try:
            r = call()
            lab = 'returned'
            judge(e, before, 'after the call')
        except core.Violation:
            raise
        except Exception as x:
            lab = type(x).__name__
            judge(e, before, 'while the exception is handled')
        judge(e, before, 'afterwards')
        r = call = None
        judge(e, before, 'after the database was dropped')
        return '%s: %s' % (name, lab)
    finally:
        e.close()


def count(case):
    v, kf, name, how, kh = case
    e = Env(v, kf)
    try:
        call = SCRIPTS[name](e, how, kh)
        n = [0]

        def hit():
            n[0] += 1
        sys.settrace(tracer(hit))
        try:
            call()
        finally:
            sys.settrace(None)
        return n[0]
    finally:
        e.close()


def run_raise(case):
    base, at = case
    v, kf, name, how, kh = base
    e = Env(v, kf)
    try:
        call = SCRIPTS[name](e, how, kh)
        before = fds()
        try:
            traced(call, at)
            lab = 'absorbed'
        except core.Violation:
            raise
        except Exception as x:
            lab = type(x).__name__
            judge(e, before, 'while the exception is handled (call %d)' % at)
        judge(e, before, 'afterwards (call %d)' % at)
        return '%s: %s' % (name, lab)
    finally:
        e.close()


CREATE = ('path', 'Path', 'BytesIO', 'file', 'nodir', 'nokey')


def run_create(case):
    kind, kh = case
    e = Env(4, 'text')
    try:
        k = e.keyarg(kh)
        if kind in ('path', 'Path', 'nokey'):
            t = e.path('new.kdbx') if kind != 'Path' else pathlib.Path(e.path('new.kdbx'))
        elif kind == 'nodir':
            t = e.path('no/new.kdbx')
        else:
            t = e.stream(kind, b'')
            e.streams[-1] = (t, None)
        if kind == 'nokey':
            k = e.path('missing')
        before = fds()
        try:
            create_database(t, password='pw', keyfile=k)
            lab = 'returned'
        except Exception as x:
            lab = type(x).__name__
            judge(e, before, 'while the exception is handled')
        judge(e, before, 'afterwards')
        return 'create: %s' % lab
    finally:
        e.close()


REPLAY = {'calls': run, 'raise': run_raise, 'create': run_create}


def main(chk):
    chk.assumptions += ['descriptors are those of /proc/self/fd; a stream may be left at any position']
    cases = [(v, kf, n, how, kh) for v in (3, 4) for kf in KEYS for n in SCRIPTS for how in HOW for kh in (HOW if kf != 'none' else ('path',))]
    chk.run_cases('calls', cases, run, 'every call that touches a file x source/target kinds x key file kinds x formats')
    chk.run_cases('create', [(k, kh) for k in CREATE for kh in ('path', 'Path', 'BytesIO', 'file')], run_create, 'create_database x targets x key file kinds', chunk=1)
    base = [(v, kf, n, how, kh) for v in (3, 4) for kf, kh in (('text', 'path'), ('xml', 'file')) for n, how in (('open_', 'path'), ('open_', 'file'), ('save_same', 'path'), ('save', 'file'), ('reload', 'path'), ('dump', 'path'), ('header', 'path'))]
    rc = [(b, k) for b in base for k in range(1, count(b) + 1)]
    chk.run_cases('raise', rc, run_raise, 'an exception from every call of a function of or by the package')
