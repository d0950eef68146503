"""C18: create_database.  All combinations of target kind, password, key file and transformed key of the alphabets; pairs of creations.
Every created file is decoded by the independent reader and opened with the right and with wrong credentials."""
import hashlib
import io
import itertools
import os
import pathlib
import shutil

import pykeepass
from pykeepass import PyKeePass, create_database
from pykeepass.exceptions import CredentialsError

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail

LEVEL = 'model_checking'
KEY = b'some key file'
TK = bytes(range(32))
PKG = os.path.dirname(os.path.abspath(pykeepass.__file__))

TARGETS = ('path', 'Path', 'relative', 'existing', 'existing other', 'stream', 'file', 'spaces', 'temporary name')
PASSWORDS = (None, '', 'pw', 'pä"<\u4e2d', 'p' * 1000, 'password')
KEYFILES = (None, 'path', 'Path', 'stream')


def digest_tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            if not f.endswith('.pyc'):
                p = os.path.join(base, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, d)] = hashlib.sha256(h.read()).hexdigest()
    return out


class Place:
    """A scratch directory with a key file and neighbours"""

    def __init__(self):
        self.dir = core.scratch()
        for n, d in (('k.key', KEY), ('neighbour.kdbx', b'neighbour'), ('new.kdbx.tmp', b'mine'), ('new.tmp', b'mine too'), ('blank_database.kdbx', b'not the template'), ('password', b'x')):
            with open(os.path.join(self.dir, n), 'wb') as f:
                f.write(d)
        self.cwd = os.getcwd()
        os.chdir(self.dir)

    def close(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def target(self, kind, name='new.kdbx'):
        """(argument, function giving the bytes, file name or None)"""
        p = os.path.join(self.dir, name)
        if kind == 'spaces':
            name = 'sp ace é.kdbx'
            p = os.path.join(self.dir, name)
        elif kind == 'temporary name':
            name = 'x.tmp'
            p = os.path.join(self.dir, name)
        elif kind.startswith('existing'):
            with open(p, 'wb') as f:
                f.write(b'old content' * 100000)
        if kind == 'stream':
            b = io.BytesIO()
            return b, b.getvalue, None
        if kind == 'file':
            f = open(p, 'w+b')
            def get():
                f.flush()
                with open(p, 'rb') as h:
                    return h.read()
            return f, get, name
        def get():
            with open(p, 'rb') as h:
                return h.read()
        return dict(Path=pathlib.Path(p), relative=name).get(kind, p), get, name

    def keyfile(self, kind):
        p = os.path.join(self.dir, 'k.key')
        return {None: None, 'path': p, 'Path': pathlib.Path(p), 'stream': io.BytesIO(KEY)}[kind]


def empty(kp, what):
    eq(kp.entries, [], what + ': entries')
    eq(len(kp.groups), 1, what + ': number of groups')
    expect(kp.root_group.is_root_group and kp.root_group.subgroups == [] and kp.root_group.entries == [], what + ': root group')
    eq(kp.binaries, [], what + ': binaries')
    eq(kp.find_entries(history=True), [], what + ': history')
    expect(kp.recyclebin_group is None, what + ': recycle bin')


def check_file(data, pw, kf, tk, what):
    try:
        db = R.decode(data, tk=tk) if tk else R.decode(data, comp=R.composite(pw, KEY if kf else None))
    except R.RefError as e:
        fail('%s: the created file cannot be decoded with the requested credentials: %s' % (what, e), 'undecodable')
    v = K.ref_observe(db)
    expect(not v['root']['entries'] and not v['root']['groups'] and not v['binaries'], what + ': created file is not empty')
    return db


def wrong(data, pw, kf, tk, quick):
    """Other credentials do not open it"""
    cand = [(None, None, None), ('', None, None), ('password', None, None), ('wrong', None, None), (pw, None if kf else 'stream', None), (pw, 'other', None), (None, None, b'\x01' * 32)]
    if quick:
        cand = cand[:1] + cand[2:3] + cand[4:5]
    n = 0
    for p, k, t in cand:
        kb = {None: None, 'stream': KEY, 'path': KEY, 'Path': KEY, 'other': b'other key'}[k]
        right = t == tk if t or tk else (p, kb) == (pw, KEY if kf else None)
        if tk and not t:
            right = False
        try:
            PyKeePass(io.BytesIO(data), password=p, keyfile=io.BytesIO(kb) if kb else None, transformed_key=t)
        except CredentialsError:
            expect(not right, 'the right credentials are refused')
        else:
            expect(right, lambda: 'created with %r, opens with %r' % ((pw, kf, tk), (p, k, t)), 'wrong credentials')
        n += 1
    return n


def create(case):
    kind, pw, kf, tk, deep = case
    pl = Place()
    try:
        pkg = digest_tree(PKG)
        arg, get, name = pl.target(kind)
        before = {k: v for k, v in digest_tree(pl.dir).items() if k != name}
        kw = {}
        if pw is not None:
            kw['password'] = pw
        if kf is not None:
            kw['keyfile'] = pl.keyfile(kf)
        if tk:
            kw['transformed_key'] = tk
        kp = create_database(arg, **kw)
        expect(isinstance(kp, PyKeePass), 'result is %r' % (kp,))
        what = 'create_database(%s, %s)' % (kind, ', '.join('%s=%.20r' % x for x in kw.items()))
        empty(kp, what)
        data = get()
        check_file(data, pw, kf, tk, what)
        eq(kp.password, pw, 'password')
        expect(kp.filename == arg, 'file name of the new database')
        # the object is connected with its file and credentials
        # (an arbitrary transformed key that contradicts a password or key file given with it: only the created file is judged)
        consistent = not (tk and (pw is not None or kf))
        if kind in ('stream', 'file'):
            arg.seek(0)
        elif consistent:
            kp.reload()
            empty(kp, what + ' reloaded')
        if deep and consistent:
            e = kp.add_entry(kp.root_group, 'first', 'u', 'secret', tags=['x'])
            e.add_attachment(kp.add_binary(b'data'), 'f')
            if kind in ('stream', 'file'):
                arg.seek(0)
                arg.truncate()
            kp.save()
            data = get()
            try:
                db = R.decode(data, tk=tk) if tk else R.decode(data, comp=R.composite(pw, KEY if kf else None))
            except R.RefError as e:
                fail('%s: cannot be decoded after the next save: %s' % (what, e), 'undecodable')
            eq([x['title'] for x in K.ref_observe(db)['root']['entries']], ['first'], 'entries after the first save')
            wrong(data, pw, kf, tk, deep == 1)
        after = {k: v for k, v in digest_tree(pl.dir).items() if k != name}
        eq(after, before, what + ': other files of the directory')
        eq(digest_tree(PKG), pkg, what + ': files of the package')
        return kind
    finally:
        pl.close()


def pair(case):
    """Two creations; the first database is edited before, between or after"""
    a, b, edit = case
    pl = Place()
    try:
        pkg = digest_tree(PKG)
        t1, get1, _ = pl.target(a[0], 'one.kdbx')
        t2, get2, _ = pl.target(b[0], 'two.kdbx')

        def change(kp):
            e = kp.add_entry(kp.root_group, 'mine', 'u', 'p')
            e.add_attachment(kp.add_binary(b'x'), 'f')
            kp.add_group(kp.root_group, 'g')
            kp.trash_entry(e)
            kp.database_name = 'named'
        k1 = create_database(t1, a[1], pl.keyfile(a[2]))
        if edit == 'before':
            change(k1)
        k2 = create_database(t2, b[1], pl.keyfile(b[2]))
        if edit == 'after':
            change(k1)
        empty(k2, 'second database')
        expect(k2.database_name != 'named', 'name of the first database in the second')
        if edit:
            eq(len(k1.entries), 1, 'entries of the first database')
        if a[0] == 'stream':
            t1.seek(0)
            t1.truncate()
        k1.save()
        db = check_or_decode(get1(), a)
        eq(len(K.ref_observe(db)['root']['groups']), 2 if edit else 0, 'groups of the first file')
        check_file(get2(), b[1], b[2], None, 'second database')
        if b[0] == 'stream':
            t2.seek(0)
            t2.truncate()
        k2.save()
        check_file(get2(), b[1], b[2], None, 'second database after saving')
        eq(digest_tree(PKG), pkg, 'files of the package')
        return 'independent'
    finally:
        pl.close()


def check_or_decode(data, a):
    return R.decode(data, comp=R.composite(a[1], KEY if a[2] else None))


def failing(case):
    """A creation that fails leaves nothing behind"""
    what, = case
    pl = Place()
    try:
        pkg = digest_tree(PKG)
        before = digest_tree(pl.dir)
        target, kw = os.path.join(pl.dir, 'n.kdbx'), dict(password='x')
        if what == 'no directory':
            target = os.path.join(pl.dir, 'no', 'n.kdbx')
        elif what == 'directory':
            target = pl.dir
        elif what == 'no key file':
            kw['keyfile'] = os.path.join(pl.dir, 'none')
        elif what == 'existing, no key file':
            target = os.path.join(pl.dir, 'neighbour.kdbx')
            kw['keyfile'] = os.path.join(pl.dir, 'none')
        elif what == 'bad password':
            kw['password'] = 5
        elif what == 'broken key file':
            kw['keyfile'] = io.BytesIO(b'<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="00000000">' + b'11' * 32 + b'</Data></Key></KeyFile>')
        try:
            create_database(target, **kw)
        except Exception as e:
            r = type(e).__name__
        else:
            fail('creation with %s succeeded' % what)
        eq(digest_tree(pl.dir), before, 'directory after a failed creation')
        eq(digest_tree(PKG), pkg, 'files of the package')
        kp = create_database(os.path.join(pl.dir, 'n.kdbx'), 'fresh')
        empty(kp, 'database created after a failed creation')
        return r
    finally:
        pl.close()


REPLAY = dict(create=create, pairs=pair, failing=failing)


def main(chk):
    q = chk.quick
    chk.assumptions += ['created databases share the format settings (cipher, key derivation, seeds) of the shipped template; that is not judged']
    cs = [(t, pw, kf, None, (t in ('path', 'stream') and kf in (None, 'path')) * (1 if q else 2)) for t in TARGETS for pw in PASSWORDS for kf in KEYFILES
          if not q or t in ('path', 'stream') and kf in (None, 'path') or pw in ('pw', None) and kf in (None, 'stream') or t == 'path' and pw == 'pw']
    cs += [(t, pw, kf, TK, (t in ('path', 'stream')) * (1 if q else 2)) for t in TARGETS for pw in (None, 'pw') for kf in (None, 'path') if not q or t in ('path', 'stream', 'existing')]
    chk.run_cases('create', cs, create, 'target kind x password x key file x transformed key', chunk=1)
    k = [('path', 'pw', None), ('stream', None, 'path'), ('Path', 'other', 'stream')]
    chk.run_cases('pairs', [(a, b, e) for a in k for b in k for e in ('before', 'after', '') if not q or e], pair, 'two creations, the first one edited before or after the second', chunk=1)
    chk.run_cases('failing', [(w,) for w in ('no directory', 'directory', 'no key file', 'existing, no key file', 'bad password', 'broken key file')], failing, 'failing creations', chunk=1)
