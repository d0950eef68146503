"""C19: opening with decrypt=False.  Every header configuration x credentials: header values compared with what the independent writer put there; every
content access and modification of the API (found by inspection) refused; no sequence of operations changes the stored database or any other file."""
import inspect
import io
import itertools
import os
import shutil

from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail

LEVEL = 'model_checking'
PW, KEY = 'pw', b'the key file'
SECRET = 'SecretTitle'


def doc(v):
    return C.document(v, C.group(v, 'root', 'Root', C.entry(v, 'e0', dict(Title=SECRET, Password='SecretPw'), binaries=[('f', 0)]), C.group(v, 'g1', 'G')), binaries3=[(b'SecretData', True)])


def configs():
    out = []
    for v, minor in ((3, 0), (3, 1), (4, 0), (4, 1)):
        for cipher in ('aes256', 'chacha20', 'twofish'):
            if v == 3 and cipher == 'chacha20':
                pass
            for kdf in (('aeskdf',) if v == 3 else ('aeskdf', 'argon2', 'argon2id')):
                for comp in (True, False):
                    for stream in ('salsa20', 'chacha20', 'none'):
                        for order in ('normal', 'reversed'):
                            out.append((v, minor, cipher, kdf, comp, stream, order))
    return out


CACHE = {}


def build(cfg):
    if cfg not in CACHE:
        v, minor, cipher, kdf, comp, stream, order = cfg
        db = R.RefDB(doc(v), version=v, cipher=cipher, compression=comp, kdf=R.cheap_kdf(kdf, repr(cfg)), stream=stream, label=repr(cfg), binaries=[(1, b'SecretData')] if v == 4 else ())
        db.minor = minor
        tk = R.transform(db, R.composite(PW, KEY))
        n = len(R.header_items(db))
        CACHE[cfg] = R.encode(db, tk, order=None if order == 'normal' else list(range(n))[::-1]), tk, db
    return CACHE[cfg]


CREDS = ('none', 'right', 'password', 'wrong password', 'empty password', 'wrong key file', 'wrong key', 'key')


def cred(name, key, tk):
    return {'none': {}, 'right': dict(password=PW, keyfile=key), 'password': dict(password=PW), 'wrong password': dict(password='wrong', keyfile=key), 'empty password': dict(password=''),
            'wrong key file': dict(password=PW, keyfile=io.BytesIO(b'other')), 'wrong key': dict(transformed_key=b'\1' * 32), 'key': dict(transformed_key=tk)}[name]


HEADER = ('version', 'encryption_algorithm', 'kdf_algorithm', 'database_salt')
# the documented attributes which show content (whatever else a class may define is not judged)
CONTENT = ('attachments', 'binaries', 'credchange_date', 'credchange_recommended', 'credchange_recommended_days', 'credchange_required', 'credchange_required_days', 'database_description', 'database_name', 'default_username', 'entries', 'groups', 'recyclebin_group', 'root_group', 'tree')


class Place:
    def __init__(self, cfg, target, cr):
        self.data, self.tk, self.db = build(cfg)
        self.dir = core.scratch()
        self.path, self.key = os.path.join(self.dir, 'db.kdbx'), os.path.join(self.dir, 'k.key')
        for p, d in ((self.path, self.data), (self.key, KEY), (os.path.join(self.dir, 'old.kdbx'), b'another file')):
            with open(p, 'wb') as f:
                f.write(d)
        self.stream = io.BytesIO(self.data)
        self.kp = PyKeePass(self.path if target == 'path' else self.stream, decrypt=False, **cred(cr, self.key, self.tk))

    def files(self):
        out = {}
        for n in sorted(os.listdir(self.dir)):
            with open(os.path.join(self.dir, n), 'rb') as f:
                out[n] = f.read()
        out['stream'] = self.stream.getvalue()
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def header(kp, cfg, db, what=''):
    v, minor, cipher, kdf, comp, stream, order = cfg
    eq(tuple(kp.version), (v, minor), what + 'version')
    eq(kp.encryption_algorithm, cipher, what + 'cipher')
    eq(kp.kdf_algorithm, kdf, what + 'key derivation function')
    eq(bytes(kp.database_salt), db.kdf['S'], what + 'salt')


def reveal(case):
    cfg, target, cr = case
    p = Place(cfg, target, cr)
    try:
        header(p.kp, cfg, p.db)
        for n in CONTENT:
            refused(p, n, lambda: getattr(p.kp, n))
        eq(p.kp.password, cred(cr, p.key, p.tk).get('password'), 'password')
        header(p.kp, cfg, p.db, 'again: ')
        st = p.files()
        eq({k: x == y for (k, x), y in zip(st.items(), (p.data, KEY, b'another file', p.data))}, dict.fromkeys(st, True), 'files')
        # the same file decrypts afterwards
        if cr == 'right' and target == 'path':
            eq([e.title for e in PyKeePass(p.path, PW, p.key).entries], [SECRET], 'entries with decryption')
            p.kp.reload()
            eq([e.title for e in p.kp.entries], [SECRET], 'entries after reload')
        elif cr == 'wrong password' and target == 'path':
            try:
                p.kp.reload()
            except CredentialsError:
                refused(p, 'entries', lambda: p.kp.entries)
            else:
                fail('reload with wrong credentials succeeded')
        return '%s %s' % (cfg[0], cr)
    finally:
        p.close()


def refused(p, name, f):
    try:
        r = f()
    except Exception as e:
        s = str(e)
        expect(SECRET not in s and 'SecretPw' not in s, name + ': the error reveals content')
        return type(e).__name__
    fail('%s is possible without decryption: %s' % (name, core.short(r)), 'not refused: ' + name)


def operations(p):
    """Everything that could read or write content"""
    kp = p.kp
    other = PyKeePass(io.BytesIO(p.data), PW, io.BytesIO(KEY))
    g, e = other.root_group, other.entries[0]
    j = os.path.join
    out = []

    def add(n, f):
        out.append((n, f))
    for n in CONTENT:
        add(n, lambda n=n: getattr(kp, n))
        if getattr(PyKeePass, n).fset:
            add(n + ' = ', lambda n=n: setattr(kp, n, C.T0 if 'date' in n else '5'))
    for n in ('title', 'username', 'password', 'url', 'notes'):
        add('find_entries(%s)' % n, lambda n=n: kp.find_entries(**{n: SECRET}))
        add('find_entries_by_' + n, lambda n=n: getattr(kp, 'find_entries_by_' + n)(SECRET))
    add('find_entries()', lambda: kp.find_entries())
    add('find_entries(path)', lambda: kp.find_entries(path=[SECRET]))
    add('find_entries(first)', lambda: kp.find_entries(first=True, history=True))
    add('find_groups()', lambda: kp.find_groups())
    add('find_groups(name)', lambda: kp.find_groups(name='G', first=True))
    add('find_groups(path)', lambda: kp.find_groups(path=['G']))
    add('find_attachments()', lambda: kp.find_attachments())
    add('find_attachments(id)', lambda: kp.find_attachments(id=0))
    add('xpath', lambda: kp.xpath('//Entry'))
    add('xml', lambda: kp.xml())
    add('deref', lambda: kp.deref('{REF:P@T:%s}' % SECRET))
    add('add_binary', lambda: kp.add_binary(b'x'))
    add('delete_binary', lambda: kp.delete_binary(0))
    add('trash_entry', lambda: kp.trash_entry(e))
    add('trash_group', lambda: kp.trash_group(g))
    add('password = ', lambda: setattr(kp, 'password', 'new'))
    add('keyfile = ', lambda: setattr(kp, 'keyfile', None))
    for nm, t in (('', None), (' db', p.path), (' new', j(p.dir, 'new.kdbx')), (' existing', j(p.dir, 'old.kdbx')), (' stream', p.stream), (' key file', p.key)):
        add('save' + nm, lambda t=t: kp.save(t))
        add('save with key' + nm, lambda t=t: kp.save(t, transformed_key=p.tk))
        if isinstance(t, str):
            add('dump_xml' + nm, lambda t=t: kp.dump_xml(t))
    out_stream = io.BytesIO(b'other stream')

    def to_stream():
        try:
            kp.save(out_stream)
        finally:
            expect(out_stream.getvalue() == b'other stream', lambda: 'save wrote %d bytes to the stream' % len(out_stream.getvalue()))
    add('save other stream', to_stream)
    return out


def refusal(case):
    """One operation, then another: both refused, nothing written, the header still right"""
    cfg, target, cr, lo, hi, second = case
    p = Place(cfg, target, cr)
    try:
        before = p.files()
        ops = operations(p)
        pw = p.kp.password
        for n in range(lo, min(hi, len(ops))):
            for k in [None] + (list(range(0, len(ops))) if second else []):
                for name, f in [ops[n]] if k is None else [ops[n], ops[k]]:
                    refused(p, name, f)
                now = p.files()
                expect(now == before, lambda: '%s changed %s' % (name, [x for x in set(now) | set(before) if now.get(x) != before.get(x)]), 'files changed')
                header(p.kp, cfg, p.db, 'after %s: ' % name)
                eq(p.kp.password, pw, 'password after ' + name)
        return 'refused'
    finally:
        p.close()


def reread(case):
    """Histories over opening with and without decryption on one object"""
    cfg, seq = case
    p = Place(cfg, 'path', 'none')
    try:
        open_ = False
        pw = None
        for op in seq:
            try:
                if op == 'read':
                    p.kp.read(p.path, decrypt=False)
                    open_ = False
                elif op == 'read wrong':
                    p.kp.read(p.path, 'wrong')
                    fail('wrong credentials accepted')
                elif op == 'read right':
                    p.kp.read(p.path, PW, p.key)
                    open_ = True
                elif op == 'read right, no decryption':
                    p.kp.read(p.path, PW, p.key, decrypt=False)
                    open_ = False
                elif op == 'save':
                    p.kp.save()
                    expect(open_, 'saved without decryption')
                elif op == 'edit':
                    p.kp.database_name = 'N'
                    expect(open_, 'edited without decryption')
            except CredentialsError:
                expect(op == 'read wrong', 'CredentialsError from ' + op)
            except ValueError:
                expect(not open_, 'ValueError from %s on an open database' % op)
            header(p.kp, cfg, p.db, '%s: ' % (seq,))
            if open_:
                eq([e.title for e in p.kp.entries], [SECRET], 'entries')
            else:
                refused(p, 'entries', lambda: p.kp.entries)
            with open(p.path, 'rb') as f:
                d = R.decode(f.read(), comp=R.composite(PW, KEY))
            eq([x['title'] for x in K.ref_observe(d)['root']['entries']], [SECRET], 'stored entries')
        return 'ok'
    finally:
        p.close()


REPLAY = dict(reveal=reveal, refusal=refusal, reread=reread)


def main(chk):
    q = chk.quick
    chk.assumptions += ['a key file that cannot be read may make opening fail; only readable ones are used']
    cfgs = configs()
    chk.run_cases('reveal', [(c, t, cr) for c in cfgs for t in ('path', 'stream') for cr in CREDS], reveal,
                  'format configurations x credentials x path/stream')
    base = [c for c in cfgs if c[4:] == (True, 'salsa20', 'normal') and c[2] == 'aes256'] if q else [c for c in cfgs if c[4:] == (True, 'salsa20', 'normal')]
    p = Place(base[0], 'path', 'none')
    n = len(operations(p))
    p.close()
    chk.run_cases('refusal', [(c, t, cr, i, i + 6, True) for c in base for t in ('path', 'stream') for cr in ('none', 'right', 'wrong password') for i in range(0, n, 6)], refusal,
                  'content accesses and modifications, alone and in ordered pairs')
    ops = ('read', 'read wrong', 'read right', 'read right, no decryption', 'save', 'edit')
    chk.run_cases('reread', [(c, s) for c in base if c[:2] in ((3, 1), (4, 0)) for n in range(1, 5 if q else 6) for s in itertools.product(ops, repeat=n)], reread, 'all histories of reads with and without decryption, edits and saves')
