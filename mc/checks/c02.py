"""C02: saving to a path under every fault.

The check re-executes itself with a fault-injecting interposer below libc's file-system calls (mc/shim/shim.c).  For every
scenario a faultless run lists the calls of `save`; then every call x every fault is executed in a forked child and the
directory is inspected by the parent with an independent reader."""
import ctypes
import errno
import io
import os
import shutil
import signal
import subprocess
import sys
import tempfile

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import Violation, expect, fail

LEVEL = 'fault_enumeration'
KILL_BEFORE, KILL_AFTER, FAIL, TORN, SHORT, FAIL_ON = 1, 2, 3, 4, 5, 6
SHIM = os.path.join(core.HERE, 'mc/shim/shim.c')
PW = 'pw'


def ensure_shim():
    if os.environ.get('VERIF_C02_SHIM'):
        return
    d = tempfile.mkdtemp(prefix='pkmc.shim.')
    so = os.path.join(d, 'shim.so')
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, SHIM, '-ldl'], check=True)
    env = dict(os.environ, LD_PRELOAD=so, VERIF_C02_SHIM=d)
    sys.stdout.flush()
    r = subprocess.run([sys.executable, '-B', '-m', 'mc.run'] + sys.argv[1:], env=env, cwd=core.HERE).returncode
    shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    os._exit(r if r in (0, 1) else 2)


def doc(v, n, tag):
    e = C.entry(v, 'e', dict(Title=tag, UserName='u', Password=tag, Notes=R.det(tag, n // 2).hex()))
    return C.document(v, C.group(v, 'root', tag, e))


def build(v, n, tag):
    return K.template(doc(v, n, tag), tkpw=PW, version=v, compression=False, cipher='chacha20')


DBS = {(v, n): (build(v, n, 'OLD'), build(v, n2, 'NEW')) for v in (3, 4) for n, n2 in ((200, 200), (30000, 40), (40, 60000))}

# scenario: (format, size, target name, existing?, neighbours, path kind, cause)
NEIGH = ('db.tmp', 'db.kdbx.tmp', 'db.kdbx~', '.db.kdbx.tmp', 'db.bak', 'other.kdbx', 'tmp', '.tmp', 'db', 'db.old', 'db.new', 'db.kdbx.bak', 'db.kdbx.new', '0' * 32 + '.tmp', '9f86d081884c7d659a2feaa0c55ad015.tmp', '9f86d081-884c-7d65-9a2f-eaa0c55ad015.tmp',
         'db.kdbx.9f86d081.tmp', '.db.kdbx.lock', 'tmpk3x_9q2z', 'db.kdbx.old', 'db (1).kdbx', 'DB.KDBX', 'db.kdb')
NAMES = ('db.kdbx', 'db', 'db.tmp', '.tmp', '.hidden', 'a.b.c', 'db.kdbx.tmp', 'sp ace é.kdbx', 'tmp', 'db.', 'x' * 200 + '.kdbx', 'db.bak', '~', '~root', '~db.kdbx', '$HOME', '${HOME}.kdbx', '%41', '-', '*', 'd[b]', 'db ', ' db', 'q"\'', '\\db')
CAUSES = ('none', 'keyfile missing', 'keyfile unreadable', 'bad transformed key', 'bad password type')


def scenarios(quick):
    out = []
    for v in (3, 4):
        for n in (200, 30000, 40):
            for ex in (True, False):
                out.append((v, n, 'db.kdbx', ex, 'all', 'str', 'none'))
    for name in NAMES:
        for kind in ('str', 'path', 'rel'):
            for ex in (True, False):
                out.append((4, 200, name, ex, 'all', kind, 'none'))
                out.append((4, 200, name, ex, 'empty', kind, 'none'))
    for c in CAUSES[1:]:
        for name in NAMES:
            for ex in (True, False):
                for nb in ('all', 'empty'):
                    out.append((4, 200, name, ex, nb, 'str', c))
        out.append((3, 200, 'db.kdbx', True, 'all', 'str', c))
    for name in ('nodir/db.kdbx', 'afile/db.kdbx', 'adir', 'adir/../db.kdbx', 'adir/db.kdbx'):
        for ex in (True, False):
            out.append((4, 200, name, ex, 'all', 'str', 'none'))
    return list(dict.fromkeys(out))


def populate(d, sc):
    v, n, name, ex, neigh, kind, cause = sc
    os.mkdir(os.path.join(d, 'adir'))
    with open(os.path.join(d, 'adir', 'keep.tmp'), 'wb') as f:
        f.write(b'keep')
    with open(os.path.join(d, 'afile'), 'wb') as f:
        f.write(b'afile')
    os.symlink('afile', os.path.join(d, 'alink'))
    if neigh == 'all':
        for x in NEIGH:
            if x != os.path.basename(name):
                with open(os.path.join(d, x), 'wb') as f:
                    f.write(b'neighbour ' + x.encode())
    t = os.path.join(d, name)
    if ex and os.path.isdir(os.path.dirname(t)) and not os.path.isdir(t):
        with open(t, 'wb') as f:
            f.write(DBS[v, n][0][0])


def listing(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs + files:
            p = os.path.join(root, x)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ('dir',)
            else:
                with open(p, 'rb') as f:
                    out[r] = ('file', f.read())
    return out


TRACED = [0]
BUILD = os.path.join(os.path.realpath(core.REPO), 'pykeepass', 'kdbx_parsing') + os.sep


def trace_raise(at, exc):
    """Raise exc at the at-th executed line of the code that builds the file"""
    def local(frame, event, arg):
        if event == 'line':
            TRACED[0] += 1
            if TRACED[0] == at:
                sys.settrace(None)
                raise exc('injected')
        return local

    def glob(frame, event, arg):
        return local if os.path.realpath(frame.f_code.co_filename).startswith(BUILD) else None
    TRACED[0] = 0
    sys.settrace(glob)


EXC = dict(RuntimeError=RuntimeError, MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt)


def child(d, sc, plan, logfd, raising=None):
    """Runs in a forked child: open NEW content, save it to the target under faults.  Exit status: 0 saved, 3 raised"""
    v, n, name, ex, neigh, kind, cause = sc
    lib = ctypes.CDLL(None)
    lib.fi_plan.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_long)
    kp = K.PyKeePass(io.BytesIO(DBS[v, n][1][0]), password=PW)
    tk = None
    if cause == 'keyfile missing':
        kp.keyfile = os.path.join(d, 'no such key file')
    elif cause == 'keyfile unreadable':
        kp.keyfile = os.path.join(d, 'adir')
    elif cause == 'bad transformed key':
        tk = 'not bytes'
    elif cause == 'bad password type':
        kp.password = 5
    target = os.path.join(d, name)
    os.environ['HOME'] = os.path.join(d, 'adir', 'h')       # a name that is wrongly expanded stays in here
    if kind == 'path':
        import pathlib
        target = pathlib.Path(target)
    elif kind == 'rel':
        os.chdir(d)
        target = name
    lib.fi_arm(d.encode(), logfd)
    for at, mode, arg in plan:
        lib.fi_plan(at, mode, arg)
    lib.fi_go(1)
    try:
        if raising:
            trace_raise(*raising)
        kp.save(target, transformed_key=tk)
        code = 0
    except (Exception, KeyboardInterrupt):
        code = 3
    sys.settrace(None)
    lib.fi_go(0)
    if logfd >= 0 and raising:
        os.write(logfd, b'%d line 0\n' % TRACED[0])
    if code == 3:
        # a second, undisturbed attempt from the same open database
        if cause == 'none' and os.path.isdir(os.path.dirname(os.path.join(d, name))) and not os.path.isdir(os.path.join(d, name)):
            before = listing(d)
            b = io.BytesIO()
            kp.save(b)
            if view(b.getvalue()) != VIEWS[v, n][1]:
                code = 5
            if listing(d) != before:
                code = 6
    os._exit(code)


def view(data):
    try:
        return K.ref_observe(R.decode(data, R.composite(PW)))['root']['name']
    except Exception as e:
        return 'damaged (%s)' % e


VIEWS = {k: (view(a[0]), view(b[0])) for k, (a, b) in DBS.items()}


def execute(sc, plan, want_log=False, raising=None):
    d = core.scratch()
    try:
        populate(d, sc)
        before = listing(d)
        r, w = os.pipe() if want_log else (-1, -1)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                devnull = os.open('/dev/null', os.O_WRONLY)
                os.dup2(devnull, 2)
                child(d, sc, plan, w, raising)
            finally:
                os._exit(9)
        log = b''
        if want_log:
            os.close(w)
            while True:
                x = os.read(r, 65536)
                if not x:
                    break
                log += x
            os.close(r)
        try:
            _, st = os.waitpid(pid, 0)
        except BaseException:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise
        killed = os.WIFSIGNALED(st)
        code = None if killed else os.WEXITSTATUS(st)
        return before, listing(d), code, log.decode().splitlines()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(sc, plan, before, after, code):
    v, n, name, ex, neigh, kind, cause = sc
    nfault = len(plan)
    expect(code in (None, 0, 3, 5, 6), 'the saving process ended with status %r' % code)
    expect(code != 5, 'after a failed save the open database saves something else')
    expect(code != 6, 'saving to a stream touched the directory')
    t = os.path.normpath(name)
    old, new = VIEWS[v, n]
    had = t in before
    # 1. nothing else that was there is touched
    for p, x in before.items():
        if p != t:
            expect(p in after, lambda: 'file %r was removed' % p)
            expect(after[p] == x, lambda: 'file %r was changed' % p)
    # 2. the target
    got = after.get(t)
    single = nfault <= 1
    if got is None:
        state = 'absent'
    elif got[0] != 'file':
        state = 'not a file'
    elif had and got == before[t]:
        state = 'old'
    else:
        s = view(got[1])
        state = 'new' if s == new else 'old' if s == old else s
    if single:
        if had:
            expect(state in ('old', 'new') or got == before[t], lambda: 'the target is %s' % state, 'target')
        else:
            expect(state in ('absent', 'new'), lambda: 'the target did not exist before and is %s' % state, 'target')
    extra = sorted(set(after) - set(before) - {t})
    # 3. outcome
    if code == 0:
        expect(state == 'new', lambda: 'save returned normally but the target is %s' % state)
        expect(not extra, lambda: 'a successful save left other files: %r' % extra)
    elif code == 3 and single:
        expect(not extra, lambda: 'a failed save left other files: %r' % extra)
    if not single and had:
        # two faults: a complete copy of the old or the new database must still exist
        ok = state in ('old', 'new') or any(after[x][0] == 'file' and view(after[x][1]) in (old, new) for x in extra)
        expect(ok, 'after two faults neither a complete old nor a complete new database exists')
    return '%s, target %s%s' % ('killed' if code is None else 'raised' if code == 3 else 'saved', state, ', temporary file left' if extra else '')


def run(case):
    sc, plan = case
    before, after, code, _ = execute(tuple(sc), plan)
    return judge(tuple(sc), plan, before, after, code)


def run_raise(case):
    sc, at, exc = case
    before, after, code, _ = execute(tuple(sc), (), raising=(at, EXC[exc]))
    return judge(tuple(sc), (None,), before, after, code)


def calls(sc, plan=()):
    _, _, code, log = execute(sc, plan, True)
    return [(int(a), b, int(c)) for a, b, c in (l.split() for l in log)], code


def lengths(n, fine):
    if fine:
        return sorted({0, 1, 2, n // 4, n // 2, 3 * n // 4, n - 2, n - 1, n} & set(range(n + 1)))
    return sorted({0, 1, n // 2, n - 1} & set(range(n + 1)))


def faults(cs, fine):
    for at, fn, n in cs:
        yield (at, KILL_BEFORE, 0)
        if 'stat' not in fn:
            yield (at, KILL_AFTER, 0)
        for e in ([errno.EIO, errno.ENOSPC, errno.EACCES, errno.EINTR] if 'stat' not in fn else [errno.EIO, errno.EACCES]):
            yield (at, FAIL, e)
        if fn.startswith('rename') or fn == 'link':
            for e in (errno.EXDEV, errno.EPERM, errno.EBUSY, errno.EEXIST):
                yield (at, FAIL, e)
        if fine and 'stat' not in fn:
            if fn.startswith('rename') or fn == 'link':
                for e in (errno.ENOENT, errno.EISDIR, errno.ENOTDIR, errno.ETXTBSY, errno.EROFS, errno.ENOTSUP, errno.ENOSYS, errno.EDQUOT, errno.EINVAL, errno.ENAMETOOLONG, errno.ENOTEMPTY):
                    yield (at, FAIL, e)
            elif fn.startswith('open'):
                for e in (errno.EMFILE, errno.ENFILE, errno.ENOENT, errno.ENOTDIR, errno.EROFS, errno.EISDIR, errno.ENAMETOOLONG, errno.EEXIST, errno.EPERM, errno.EINVAL, errno.ENOMEM):
                    yield (at, FAIL, e)
            else:
                for e in (errno.EPERM, errno.EDQUOT, errno.EFBIG, errno.EAGAIN, errno.EINVAL, errno.ENOMEM):
                    yield (at, FAIL, e)
        if fn in ('write', 'sendfile64', 'sendfile', 'copy_file_range', 'pwrite64'):
            yield (at, FAIL_ON, errno.ENOSPC)
            yield (at, FAIL_ON, errno.EIO)
            for k in lengths(n, fine):
                yield (at, TORN, k)
                if 0 < k < n:
                    yield (at, SHORT, k)


REPLAY = {'raise': lambda c: (ensure_shim(), run_raise(c))[1], 'single': lambda c: (ensure_shim(), run(c))[1], 'pairs': lambda c: (ensure_shim(), run(c))[1], 'none': lambda c: (ensure_shim(), run(c))[1]}


def main(chk):
    ensure_shim()
    scs = scenarios(chk.quick)
    chk.run_cases('none', [(s, ()) for s in scs], run, 'every scenario without fault (file names, neighbours, build failures)')
    if chk.stop():
        return
    deep = [s for s in scs if s[6] == 'none' and s[2] in ('db.kdbx', 'db.tmp', '.tmp', 'db') and (s[5] == 'str' or s[2] == 'db.kdbx')]
    deep += [s for s in scs if s[6] == 'keyfile missing' and s[2] in ('db.kdbx', 'db.tmp')]
    single, log = [], {}
    for s in deep:
        cs, _ = calls(s)
        log[s] = cs
        expect(s[6] != 'none' or cs, 'no file-system call was seen: %r' % (s,))
        single += [(s, (f,)) for f in faults(cs, True) if s[6] == 'none' or f[1] in (KILL_BEFORE, KILL_AFTER)]
    chk.run_cases('single', single, run, 'every file-system call of save x {kill before, kill after, torn prefix, short write, error, persistent error}')
    if chk.stop():
        return
    cases = []
    for s in deep:
        if s[5] == 'str' and s[6] == 'none' and s[1] == 200 and (not chk.quick or s[3] and s[4] == 'all'):
            _, _, _, lg = execute(s, (), True, raising=(-1, RuntimeError))
            cases += [(s, k, e) for k in range(1, int(lg[-1].split()[0]) + 1) for e in EXC]
    chk.run_cases('raise', cases, run_raise, 'an exception at every executed line of the code that builds the file x exception kind')
    if chk.stop():
        return
    pairs = []
    for s in deep:
        if s[2] != 'db.kdbx' or s[5] != 'str' or s[6] != 'none' or not s[3]:
            continue
        if chk.quick and s[1] != 200:
            continue
        for f in faults(log[s], False):
            if f[1] in (FAIL, SHORT, FAIL_ON):
                cs, _ = calls(s, (f,))
                for g in faults(cs, False):
                    if g[0] > f[0] and (not chk.quick or g[1] in (KILL_BEFORE, KILL_AFTER, TORN) or g[2] in (errno.EIO, errno.ENOSPC)):
                        pairs.append((s, (f, g)))
    chk.run_cases('pairs', pairs, run, 'every error followed by every later fault of the resulting execution')
    chk.cov['calls_of_a_save'] = {repr(s): [c[1] for c in cs] for s, cs in list(log.items())[:4]}
    chk.assumptions.append('process crash and I/O errors; file-system operations are durable in program order (no power-loss reordering)')
