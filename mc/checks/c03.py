"""C03: credentials.  Full matrix of (credentials saved with, credentials opened with); breadth-first search over histories
of credential changes, saves, reloads and transformed-key use."""
import io
import itertools
import os
import shutil

from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import Violation, eq, expect, fail
from ..world import hash_key

LEVEL = 'model_checking'

PASSWORDS = [None, '', 'pw', 'Pw', 'pw ', 'p', 'pwpw', 'é', 'e\u0301', '中😀', 'x' * 64, 'x' * 65, 'x' * 300, '0', 'None', 'pw\n', 'pw\x00']
XML1 = ('<?xml version="1.0" encoding="utf-8"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>%s</Data></Key></KeyFile>'
        % C.b64(R.det('k1', 32))).encode()
RAW = R.det('k1', 32)
KEYFILES = {
    'none': None, 'empty': b'', 'one': b'x', 'raw32': RAW, 'raw32b': R.det('k2', 32), 'hex64': R.det('hx', 32).hex().encode(),
    'HEX64': R.det('hy', 32).hex().upper().encode(), 'text': b'a key file', 'text2': b'a key filf', 'bin': R.det('kb', 1000),
    'bin2': R.det('kb', 999), 'xml1': XML1, 'nothex': b'g' * 64,
}
# contents that give the same key on purpose (same 32 bytes): equal credentials, not different ones
CONF = {'v3': dict(version=3), 'v4': dict(version=4), 'v4argon2': dict(version=4, kdf=R.cheap_kdf('argon2')),
        'v4argon2id': dict(version=4, kdf=R.cheap_kdf('argon2id')), 'v3chacha': dict(version=3, cipher='chacha20'),
        'v4chacha': dict(version=4, cipher='chacha20'), 'v3twofish': dict(version=3, cipher='twofish')}


def doc(v, title='the content'):
    return C.document(v, C.group(v, 'root', 'Root', C.entry(v, 'e', dict(Title=title, Password='secret'))))


def make(conf, pw, key, title='the content'):
    c = CONF[conf]
    return K.template(doc(c['version'], title), tkpw=pw, keyfile=key, **c)


def comp(pw, key):
    return R.composite(pw, KEYFILES[key])


def kfile(key):
    return None if KEYFILES[key] is None else io.BytesIO(KEYFILES[key])


def attempt(data, pw, key, tk=None):
    """'open' with the content, or the exception type name"""
    try:
        kp = PyKeePass(io.BytesIO(data), password=pw, keyfile=kfile(key), transformed_key=tk)
    except Exception as e:
        return type(e).__name__ if type(e) is not CredentialsError else 'CredentialsError'
    return 'open:%s' % kp.entries[0].title


def run_matrix(case):
    """Database saved with (pw, key); opened with every credential pair, with the transformed key and with wrong ones"""
    conf, pw, key, others, writer = case
    title = 'the content'
    if writer == 'ref':
        data, tk, _ = make(conf, pw, KEYFILES[key])
    else:
        d0, tk0, _ = make(conf, 'initial', None)
        kp = PyKeePass(io.BytesIO(d0), password='initial')
        kp.password = pw
        kp.keyfile = kfile(key)
        b = io.BytesIO()
        kp.save(b)
        data = b.getvalue()
        db = R.decode(data, comp(pw, key))
        tk = db.tk
        eq(attempt(data, 'initial', 'none'), 'CredentialsError', 'old credentials after a change')
    n = [0, 0]
    for p2, k2 in others:
        got = attempt(data, p2, k2)
        same = comp(p2, k2) == comp(pw, key)
        want = 'open:' + title if same else 'CredentialsError'
        expect(got == want, lambda: 'saved with password %r and key file %s, opened with password %r and key file %s: %s (expected %s)' % (
            pw, key, p2, k2, got, want))
        n[same] += 1
    eq(attempt(data, None, 'none', tk), 'open:' + title, 'opening with the transformed key')
    src = io.BytesIO(data)
    kp = PyKeePass(src, password=pw, keyfile=kfile(key))
    eq(kp.transformed_key, tk, 'transformed_key')
    for step in ('opening', 'saving'):
        kp.entries[0].title = 'changed'
        src.seek(0)
        kp.reload()
        eq(kp.entries[0].title, title, 'title after reload after ' + step)
        b = io.BytesIO()
        kp.save(b)
        eq(attempt(b.getvalue(), pw, key), 'open:' + title, 'opening what was saved after ' + step)
    return '%d opened, %d rejected' % (n[1], n[0])


def run_tk(case):
    """Every single-bit change of the transformed key, and other lengths"""
    conf, bits = case
    data, tk, _ = make(conf, 'pw', None)
    for b in bits:
        t = bytearray(tk)
        t[b // 8] ^= 1 << b % 8
        eq(attempt(data, 'pw', 'none', bytes(t)), 'CredentialsError', 'transformed key with bit %d changed' % b)
    if bits[0] == 0:
        for t in (b'', tk[:31], tk[1:], tk + b'\0', bytes(32), tk[::-1], R.det('other', 32)):
            eq(attempt(data, 'pw', 'none', t), 'CredentialsError', 'transformed key %r' % t)
        # a right transformed key counts whatever else is given
        eq(attempt(data, 'wrong', 'none', tk), 'open:the content', 'transformed key with another password')
    return 'rejected'


# ------------------------------------------------------------------ near misses of long credentials, key files by name

def near(s):
    """Strings or bytes one step away from s"""
    z = b'\0' if isinstance(s, bytes) else '\0'
    n = len(s)
    one = lambda i: s[:i] + (bytes([s[i] ^ 1]) if isinstance(s, bytes) else chr(ord(s[i]) ^ 1)) + s[i + 1:]
    out = [one(i) for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}) if 0 <= i < n]
    out += [s[:-1], s[1:], s + z, s + s[-1:], z + s, s[:n // 2] + z + s[n // 2:], s + (b' ' if isinstance(s, bytes) else ' '), s + (b'\n' if isinstance(s, bytes) else '\n'), s[::-1]]
    return [x for x in dict.fromkeys(out) if x != s]


def run_near(case):
    conf, kind, s = case
    if isinstance(s, int):
        s = R.det('near', s) if kind == 'key' else R.det('near', s // 2 + 1).hex()[:s]
    if kind == 'key':
        s = s if isinstance(s, bytes) else s.encode()
        cred = lambda x: ('pw', io.BytesIO(x))
        raw = lambda x: ('pw', x)
    else:
        cred = lambda x: (x, None)
        raw = lambda x: (x, None)
    pw, key = raw(s)
    data, tk, _ = make(conf, pw, key)
    p, k = cred(s)
    eq(PyKeePass(io.BytesIO(data), password=p, keyfile=k).entries[0].title, 'the content', 'opened with the right credentials')
    n = 0
    for x in near(s):
        if R.composite(*raw(x)) == R.composite(pw, key):
            continue
        p, k = cred(x)
        n += 1
        try:
            PyKeePass(io.BytesIO(data), password=p, keyfile=k)
        except CredentialsError:
            continue
        fail('opened with a %s of %d characters that differs from the right one' % ('key file' if kind == 'key' else 'password', len(x)))
    if kind == 'password' and '?' in s:
        for x in ('\ud800', '\udcff', '\ufffd', ''):
            try:
                PyKeePass(io.BytesIO(data), password=s.replace('?', x))
            except Exception:
                continue
            fail('opened with the password %a instead of %a' % (s.replace('?', x), s))
    return 'one opens, the others do not'


LENGTHS = (1, 2, 7, 8, 15, 16, 31, 33, 55, 56, 63, 65, 72, 73, 127, 128, 129, 255, 256, 257, 511, 1000, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131073, 1 << 20)
WORDS = ('a\0b', '\0', '\0\0', 'pw\0', '\0pw', ' ', '  pw', 'tab\t', 'a\r\nb', 'é', 'e\u0301', 'ß', 'İ', '\ufb01', '\u212b', '\uff50\uff57', '\ud7ff', '\ufeffpw', '😀', 'None', '0', 'false',
         '"', "'", '{}', '%s', '\\x41', '&amp;', 'a?b', '?', 'a\ufffdb', 'x' * 100, 'x' * 64)

NAMES = ('key', ' ', '  ', '.k', '0', 'a key', 'k.key', '~', '~root', '~key', '$HOME', '${HOME}key', '%41', 'ké', '-', '--key', 'key*', 'k[ey]', '\\key', 'key ', ' key', 'none', 'key\n', '.key', 'key.kdbx', "k'e\"y", 'b' * 200)


def run_named(case):
    """Key file by path: the file of exactly that name is read, at opening and at saving"""
    conf, name, how = case
    import pathlib
    d = core.scratch()
    old, home = os.getcwd(), os.environ.get('HOME')
    try:
        os.environ['HOME'] = os.path.join(d, 'home')
        os.mkdir(os.path.join(d, 'home'))
        for sub_, c in ((d, b'the right key file'), (os.path.join(d, 'home'), b'another key file')):
            for n in NAMES:
                with open(os.path.join(sub_, n), 'wb') as f:
                    f.write(c + (n.encode() if c[:1] == b't' else b''))
        with open(os.path.join(d, 'homekey'), 'wb') as f:
            f.write(b'wrong')
        os.chdir(d)
        path = {'rel': name, 'dot': os.path.join('.', name), 'abs': os.path.join(d, name), 'path': pathlib.Path(name), 'abspath': pathlib.Path(d) / name, 'up': os.path.join('home', '..', name)}[how]
        right = b'the right key file' + name.encode()
        data, tk, _ = make(conf, 'pw', right)
        db = os.path.join(d, 'db.kdbx')
        with open(db, 'wb') as f:
            f.write(data)
        kp = PyKeePass(db, password='pw', keyfile=path)
        eq(kp.entries[0].title, 'the content', 'title')
        kp.entries[0].title = 'edited'
        kp.save()
        with open(db, 'rb') as f:
            R.decode(f.read(), R.composite('pw', right))
        kp.reload()
        eq(kp.entries[0].title, 'edited', 'title after reload')
        kp.keyfile = None
        kp.save()
        kp.keyfile = path
        kp.save()
        with open(db, 'rb') as f:
            R.decode(f.read(), R.composite('pw', right))
        return 'that file'
    finally:
        os.chdir(old)
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ histories

PWS = ['a', 'b', None]
KFS = ['none', 'text', 'raw32']


class Sess:
    """One stored file and one open database object; model: credentials in memory and of the stored file"""

    def __init__(self, conf):
        self.conf = conf
        self.dir = core.scratch()
        self.file = os.path.join(self.dir, 'db.kdbx')
        for k, b in KEYFILES.items():
            if b is not None and k in KFS:
                with open(os.path.join(self.dir, k), 'wb') as f:
                    f.write(b)
        data, self.tk, _ = make(conf, 'a', None, 't0')
        with open(self.file, 'wb') as f:
            f.write(data)
        self.kp = PyKeePass(self.file, password='a')
        self.content = {k: KEYFILES[k] for k in KFS}    # what the key files contain now
        self.mem = self.disk = ('a', 'none')    # credential pairs
        self.dcomp = comp('a', 'none')          # composite key of the stored file
        self.title = self.dtitle = 't0'
        self.viatk = False                      # or the composite key: opened with a transformed key (credentials in memory unknown)
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def kf(self, k):
        return None if k == 'none' else os.path.join(self.dir, k)

    def comp(self, cred):
        return R.composite(cred[0], self.content[cred[1]])

    def tk_of(self, c):
        with open(self.file, 'rb') as f:
            return R.transform(R.parse_header(f.read()), c)

    def do(self, op):
        k = op[0]
        if k == 'password':
            self.kp.password = op[1]
            # after opening by transformed key nothing is known about the other part: it is "no key file"
            self.mem = (op[1], 'none' if self.viatk else self.mem[1])
            self.viatk = False
        elif k == 'keyfile':
            self.kp.keyfile = self.kf(op[1])
            self.mem = (None if self.viatk else self.mem[0], op[1])
            self.viatk = False
        elif k == 'edit':
            self.n += 1
            self.title = 't%d' % self.n
            self.kp.entries[0].title = self.title
        elif k == 'save':
            self.kp.save()
            self.disk, self.dtitle = self.mem, self.title
            # a database opened with a transformed key keeps that one
            if not self.viatk:
                self.dcomp = self.comp(self.mem)
            else:
                self.dcomp = self.viatk
        elif k == 'save_tk':
            # saving with the transformed key of other credentials: those are the credentials of the file
            self.kp.save(transformed_key=self.tk_of(self.comp(op[1])))
            self.disk, self.dtitle, self.dcomp = op[1], self.title, self.comp(op[1])
        elif k == 'replace':
            # another key file under the same name
            new = KEYFILES['text2'] if self.content[op[1]] == KEYFILES[op[1]] else KEYFILES[op[1]]
            with open(self.kf(op[1]), 'wb') as f:
                f.write(new)
            self.content[op[1]] = new
        elif k == 'save_elsewhere':
            self.kp.save(os.path.join(self.dir, 'copy'))
            with open(os.path.join(self.dir, 'copy'), 'rb') as f:
                self.readable(f.read(), self.viatk or self.comp(self.mem), self.title)
        elif k == 'reload':
            if (self.viatk or self.comp(self.mem)) == self.dcomp:
                self.kp.reload()
                self.title = self.dtitle
            else:
                try:
                    self.kp.reload()
                except CredentialsError:
                    return 'reload refused'
                fail('reload with changed, unsaved credentials succeeded')
        elif k == 'open':
            try:
                self.kp = PyKeePass(self.file, password=self.disk[0], keyfile=self.kf(self.disk[1]))
            except CredentialsError:
                if self.comp(self.disk) != self.dcomp:
                    return 'open refused'
                raise
            expect(self.comp(self.disk) == self.dcomp, 'opened although the key file was replaced')
            self.mem, self.title, self.viatk = self.disk, self.dtitle, False
        elif k == 'open_tk':
            self.kp = PyKeePass(self.file, transformed_key=self.tk_of(self.dcomp))
            self.mem, self.title, self.viatk = self.disk, self.dtitle, self.dcomp
        elif k == 'open_wrong':
            try:
                PyKeePass(self.file, password='wrong', keyfile=self.kf(op[1]))
            except CredentialsError:
                return 'rejected'
            fail('opened with wrong credentials')
        return k

    def readable(self, data, c, title):
        try:
            db = R.decode(data, c)
        except R.RefCredentials:
            fail('the file cannot be opened with the credentials it was saved with')
        eq(K.ref_observe(db)['root']['entries'][0]['title'], title, 'content of the file')
        for cred in itertools.product(PWS, KFS + ['text2']):
            if comp(*cred) != c:
                try:
                    R.decode(data, comp(*cred))
                except R.RefCredentials:
                    continue
                fail('the file opens with %r, which are not the credentials it was saved with' % (cred,))

    def check(self):
        with open(self.file, 'rb') as f:
            data = f.read()
        self.readable(data, self.dcomp, self.dtitle)
        if self.comp(self.disk) == self.dcomp:
            got = PyKeePass(self.file, password=self.disk[0], keyfile=self.kf(self.disk[1]))
            eq(got.entries[0].title, self.dtitle, 'title after reopening')
        else:
            try:
                PyKeePass(self.file, password=self.disk[0], keyfile=self.kf(self.disk[1]))
            except CredentialsError:
                pass
            else:
                fail('the file opens although its key file was replaced by another one')
        eq(self.kp.entries[0].title, self.title, 'title in memory')
        if not self.viatk:
            eq(self.kp.password, self.mem[0], 'password attribute')
            eq(self.kp.keyfile, self.kf(self.mem[1]), 'keyfile attribute')

    def key(self):
        # everything that can influence the future: credentials in memory and on disk, how it was opened, unsaved edits
        return hash_key((self.mem, self.disk, self.viatk, self.title == self.dtitle, self.dcomp, sorted(self.content.items(), key=repr), K.hidden_state(self.kp)))


def ops_of(s):
    out = [('password', p) for p in PWS] + [('keyfile', k) for k in KFS]
    out += [('edit',), ('save',), ('reload',), ('open',), ('open_tk',), ('save_elsewhere',), ('open_wrong', 'none')]
    out += [('save_tk', ('b', 'none')), ('save_tk', ('a', 'text'))]
    if 'text' in (s.mem[1], s.disk[1]):
        out.append(('replace', 'text'))
    return out


def mk(conf):
    def run(history):
        s = Sess(conf)
        try:
            lab = 'start'
            for op in history:
                lab = '%s: %s' % (op[0], s.do(op))
            s.check()
            return s.key(), ops_of(s), lab
        finally:
            s.close()
    return run


REPLAY = {'history-' + c: mk(c) for c in CONF}
REPLAY.update(matrix=run_matrix, tk=run_tk, near=run_near, named=run_named)


def main(chk):
    pairs = list(itertools.product(PASSWORDS, KEYFILES))
    small = list(itertools.product(PASSWORDS[:9], ['none', 'empty', 'raw32', 'hex64', 'text', 'text2', 'xml1']))
    cases = [(c, p, k, pairs, 'ref') for c in ('v3', 'v4') for p, k in (pairs if not chk.quick else small)]
    cases += [(c, p, k, small, 'api') for c in CONF for p, k in (small if not chk.quick else small[::3]) if c != 'v3twofish' or not chk.quick]
    cases += [('v3twofish', p, k, small[:12], 'api') for p, k in small[::9]]
    chk.run_cases('matrix', cases, run_matrix, 'every pair (saved with, opened with) of the credential alphabet x configuration x writer', chunk=1)
    chk.run_cases('tk', [(c, tuple(range(i, i + 32))) for c in CONF for i in range(0, 256, 32)], run_tk,
                  'every single-bit change of the transformed key x configuration')
    big = (20_000_000, 70_000_001)
    chk.run_cases('near', [(c, k, s) for c in ('v4', 'v3') for k in ('password', 'key') for s in LENGTHS + WORDS + (big if c == 'v4' or not chk.quick else ())], run_near,
                  'passwords and key files of many lengths and kinds x single-step changes', chunk=1)
    chk.run_cases('named', [(c, n, h) for c in ('v4', 'v3') for n in NAMES for h in ('rel', 'dot', 'abs', 'path', 'abspath', 'up')], run_named,
                  'key file names x kinds of path, with decoys in the home directory')
    for c in ('v4', 'v3', 'v4argon2'):
        chk.explore('history-' + c, REPLAY['history-' + c], (4 if c == 'v4' else 3) + (0 if chk.quick else 1), dedupe_from=3)
