"""C14: operations that fail.  Catalogue of API calls with unacceptable arguments or circumstances x start states; whenever a call raises, the
complete state - public view, handles, credentials, file name, and the document an independent reader finds in the next save - is as before,
and any following operation has the result it would have had without the failed call."""
import io
import itertools
import os
import shutil
import uuid
from datetime import datetime, timezone

from pykeepass import PyKeePass
from pykeepass.attachment import Attachment
from pykeepass.entry import Entry
from pykeepass.group import Group

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail, first_diff

LEVEL = 'model_checking'
PW, KEY = 'pw', b'key file content'
F = dict(Title='t', UserName='u', Password='p', URL='l', Notes='n', otp='o')
BADTEXT = ['\x00', 'a\x01b', '\x0b', '\x1f', '\ud800', 'x\udfff', '\ufffe', '\uffff']
BADTYPE = [5, 1.5, b'\xff', b'x', object(), ['x'], {'a': 1}, (), None]


class Bad:
    """Neither text nor anything else"""

    def __str__(self):
        raise ValueError('no text')


def bad_values():
    return BADTEXT + BADTYPE + [Bad()]


def doc(v):
    h = [C.entry(v, 'e0', dict(F, Title='old'), custom=[('k', 'hv', True)], binaries=[('hf', 1)]), C.entry(v, 'e0', dict(F, Title='older'))]
    e0 = C.entry(v, 'e0', F, custom=[('k', 'v', True), ('q"', 'w', None)], tags='a;b', binaries=[('f', 0), ('g', 1)], history=h, icon='3')
    e1 = C.entry(v, 'e1', dict(F, Title='s'), binaries=[('f2', 1)], history=[C.entry(v, 'e1', dict(F, Title='x'))])
    e2 = C.entry(v, 'e2', {})
    g2 = C.group(v, 'g2', 'H', C.entry(v, 'e3', F))
    rb = C.group(v, 'rb', 'Bin', C.entry(v, 'e4', F))
    return C.document(v, C.group(v, 'root', 'Root', e0, e2, C.group(v, 'g1', 'G', e1, g2, notes='gn'), rb), binaries3=[(b'one', True), (b'two', False)], recyclebin=C.uid('rb'))


def build(v):
    from types import SimpleNamespace
    db = R.RefDB(doc(v), version=v, binaries=[(1, b'one'), (0, b'two')] if v == 4 else ())
    comp = R.composite(PW, KEY)
    tk = R.transform(db, comp)
    return SimpleNamespace(data=R.encode(db, tk), tk=tk, comp=comp)


T = {v: build(v) for v in (3, 4)}
OTHER = {v: K.template(C.document(v, C.group(v, 'r2', 'Other', C.entry(v, 'x', dict(Title='other')))), tkpw='otherpw', version=v) for v in (3, 4)}


class Ctx:
    """A database opened from a file in a scratch directory"""

    def __init__(self, v, state):
        self.v = v
        self.dir = core.scratch()
        self.path, self.key = os.path.join(self.dir, 'db.kdbx'), os.path.join(self.dir, 'k.key')
        self.put(self.path, T[v].data)
        self.put(self.key, KEY)
        self.kp = kp = PyKeePass(self.path, PW, self.key)
        if state == 'edited':       # unsaved changes
            kp.entries[0].title = 'edited'
            kp.add_entry(kp.root_group, 'new', 'entry', 'pw')
            kp.add_binary(b'three')
            kp.root_group.entries[0].save_history()
            kp.database_name = 'name'
        elif state == 'saved':      # another file name, other credentials
            kp.password = 'second'
            kp.save()
        elif state == 'sparse':     # no recycle bin, no binaries, no history
            for b in list(kp.binaries):
                kp.delete_binary(0)
            kp.delete_group(kp.recyclebin_group)
            kp.root_group.entries[0].delete_history(all=True)
        self.e = {C.uid('e%d' % i): None for i in range(5)}
        self.take()

    def take(self):
        g = self.kp.root_group
        self.root, self.g1 = g, g.subgroups[0]
        self.g2 = self.g1.subgroups[0]
        self.e0, self.e2 = g.entries[0], g.entries[1]
        self.e1 = self.g1.entries[0]
        self.rb = self.kp.recyclebin_group
        self.e4 = self.rb.entries[0] if self.rb is not None else self.e2

    def put(self, path, data):
        with open(path, 'wb') as f:
            f.write(data)

    def get(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def state(self, files=True):
        kp = self.kp
        b = io.BytesIO()
        obs = K.observe(kp)
        kp.save(b)
        comp = R.composite(kp.password, KEY)
        db = R.decode(b.getvalue(), comp=comp)
        expect(db is not None, 'saved file unreadable')
        st = dict(view=obs, document=R.canon(db.xml), binaries=list(db.binaries or ()), header=db.header, password=kp.password, keyfile=kp.keyfile,
                  filename=kp.filename, version=kp.version, tk=kp.transformed_key,
                  handles=[K.obs_entry(x) for x in (self.e0, self.e1, self.e2, self.e4)] + [K.obs_group(x) for x in (self.g1, self.g2)],
                  where=[x.parentgroup.uuid.hex for x in (self.e0, self.e1, self.e2, self.e4, self.g1, self.g2)])
        if files:
            st['files'] = {n: self.get(os.path.join(self.dir, n)) for n in sorted(os.listdir(self.dir))}
        return st


class missing:
    """The file is absent or damaged while the call runs"""

    def __init__(self, ctx, path, content=None):
        self.c, self.p, self.n = ctx, path, content

    def __enter__(self):
        self.old = self.c.get(self.p)
        if self.n is None:
            os.unlink(self.p)
        else:
            self.c.put(self.p, self.n)

    def __exit__(self, *a):
        self.c.put(self.p, self.old)


# ---------------------------------------------------------------- catalogue
def calls(c):
    """(name, thunk): calls that fail or may fail; the list is the same in every process"""
    kp = c.kp
    out = []

    def add(name, fn):
        out.append((name, fn))

    def setter(obj, attr, val):
        return lambda: setattr(obj(), attr, val)

    for i, val in enumerate(bad_values()):
        for nm, obj in (('e0', lambda: c.e0), ('e2', lambda: c.e2)):
            for a in ('title', 'username', 'password', 'url', 'notes', 'otp', 'icon', 'tags', 'autotype_sequence', 'autotype_window', 'autotype_enabled',
                      'uuid', 'ctime', 'mtime', 'atime', 'expiry_time', 'history'):
                add('%s.%s = bad %d' % (nm, a, i), setter(obj, a, val))
            add('%s.tags = [x, bad %d]' % (nm, i), setter(obj, 'tags', ['x', val]))
            add('%s property value bad %d' % (nm, i), lambda obj=obj, val=val: obj().set_custom_property('k', val))
            add('%s new property value bad %d' % (nm, i), lambda obj=obj, val=val: obj().set_custom_property('newkey', val, protect=True))
            add('%s property key bad %d' % (nm, i), lambda obj=obj, val=val: obj().set_custom_property(val, 'v'))
            add('%s delete property bad %d' % (nm, i), lambda obj=obj, val=val: obj().delete_custom_property(val))
            add('%s get property bad %d' % (nm, i), lambda obj=obj, val=val: obj().get_custom_property(val))
            add('%s attach bad name %d' % (nm, i), lambda obj=obj, val=val: obj().add_attachment(0, val))
            add('%s reindex bad %d' % (nm, i), lambda obj=obj, val=val: obj().reindex(val))
            add('%s delete history bad %d' % (nm, i), lambda obj=obj, val=val: obj().delete_history(val))
            add('%s deref bad %d' % (nm, i), lambda obj=obj, val=val: obj().deref(val))
            add('%s ref bad %d' % (nm, i), lambda obj=obj, val=val: obj().ref(val))
            add('%s delete attachment bad %d' % (nm, i), lambda obj=obj, val=val: obj().delete_attachment(val))
        for nm, obj in (('g1', lambda: c.g1), ('root', lambda: c.root)):
            for a in ('name', 'notes', 'icon', 'uuid', 'ctime', 'expiry_time'):
                add('%s.%s = bad %d' % (nm, a, i), setter(obj, a, val))
            add('%s append bad %d' % (nm, i), lambda obj=obj, val=val: obj().append(val))
            add('%s append [e4, bad %d]' % (nm, i), lambda obj=obj, val=val: obj().append([c.e4, val]))
        for a in ('database_name', 'database_description', 'default_username', 'credchange_date'):
            add('kp.%s = bad %d' % (a, i), setter(lambda: kp, a, val))
        if not isinstance(val, (int, float)):
            for a in ('credchange_required_days', 'credchange_recommended_days'):
                if isinstance(val, str) or isinstance(val, Bad):
                    add('kp.%s = bad %d' % (a, i), setter(lambda: kp, a, val))
        if i < len(c.e0.attachments) or True:
            add('attachment.filename = bad %d' % i, lambda val=val: setattr(c.e1.attachments[0], 'filename', val))
        # creation
        good = dict(title='n1', username='n2', password='n3', url='n4', notes='n5', otp='n6', tags=['n7'], icon='8')
        for k in good:
            add('add_entry bad %s %d' % (k, i), lambda k=k, val=val: kp.add_entry(c.root, **dict(good, **{k: val})))
        add('add_entry bad tag %d' % i, lambda val=val: kp.add_entry(c.root, **dict(good, tags=['x', val])))
        add('add_entry bad expiry %d' % i, lambda val=val: kp.add_entry(c.root, expiry_time=val or 'x', **good))
        add('add_entry bad group %d' % i, lambda val=val: kp.add_entry(val, **good))
        for k in ('group_name', 'notes', 'icon'):
            add('add_group bad %s %d' % (k, i), lambda k=k, val=val: kp.add_group(c.root, **dict(dict(group_name='n', notes='x', icon='5'), **{k: val})))
        add('add_group bad group %d' % i, lambda val=val: kp.add_group(val, 'n'))
        add('Entry() bad %d' % i, lambda val=val: Entry(title=val, kp=kp))
        add('Entry(element) bad %d' % i, lambda val=val: Entry(element=val or 0, kp=kp))
        # structure
        for fn in ('move_entry', 'move_group'):
            for nm, x in (('e0', lambda: c.e0), ('g1', lambda: c.g1)):
                add('%s %s to bad %d' % (fn, nm, i), lambda fn=fn, x=x, val=val: getattr(kp, fn)(x(), val))
            add('%s bad %d' % (fn, i), lambda fn=fn, val=val: getattr(kp, fn)(val, c.g1))
        for fn in ('delete_entry', 'delete_group', 'trash_entry', 'trash_group', 'empty_group', 'delete_binary', 'deref', 'add_binary', 'read', 'save', 'dump_xml', 'xpath'):
            # None/empty mean "the current file" for read and save; an integer would be used as file descriptor
            if fn in ('read', 'save', 'dump_xml') and (not val or isinstance(val, (int, bytes, str))):
                continue
            add('kp.%s(bad %d)' % (fn, i), lambda fn=fn, val=val: getattr(kp, fn)(val))
        for fn in ('find_entries', 'find_groups', 'find_attachments'):
            for k in ('title', 'name', 'filename', 'uuid', 'id', 'tags', 'string', 'path', 'group', 'element', 'flags', 'nonsense'):
                add('%s(%s=bad %d)' % (fn, k, i), lambda fn=fn, k=k, val=val: getattr(kp, fn)(**{k: val}))
            add('%s(regex bad %d)' % (fn, i), lambda fn=fn, val=val: getattr(kp, fn)(title=val, regex=True))
    # duplicates, impossible moves, refused trash
    def dup():
        kp.add_entry(c.root, c.e0.title, c.e0.username, 'other', url='other', notes='x', tags=['y'], icon='9')
    add('duplicate entry', dup)
    add('duplicate entry, explicit', lambda: kp.add_entry(c.g1, c.e1.title, c.e1.username, 'z', force_creation=False))
    for a, b in (('g1', 'g1'), ('g1', 'g2'), ('root', 'g1'), ('root', 'g2'), ('root', 'root'), ('g2', 'g2')):
        add('move %s into %s' % (a, b), lambda a=a, b=b: kp.move_group(getattr(c, a), getattr(c, b)))
        add('append %s to %s' % (a, b), lambda a=a, b=b: getattr(c, b).append(getattr(c, a)))
        add('append [e4, %s] to %s' % (a, b), lambda a=a, b=b: getattr(c, b).append([c.e4, getattr(c, a)]))
    add('trash root', lambda: kp.trash_group(c.root))
    add('trash bin', lambda: kp.trash_group(c.rb))
    add('trash parent of bin', lambda: (_ for _ in ()).throw(ValueError()))
    add('trash None', lambda: kp.trash_entry(None))
    add('trash detached', lambda: kp.trash_entry('nothing'))
    # binaries
    for i in (-1, -2, -100, 2, 3, 4, 100, 2 ** 40):
        if i >= len(kp.binaries) or i < 0:
            add('delete_binary %d' % i, lambda i=i: kp.delete_binary(i))
    add('add_binary text', lambda: kp.add_binary('text'))
    add('add_binary None', lambda: kp.add_binary(None))
    add('add_binary bytearray uncompressed', lambda: kp.add_binary(7, compressed=False))
    add('add_binary text unprotected', lambda: kp.add_binary('text', protected=False))
    add('attachment of history of other entry', lambda: c.e1.delete_history(c.e0.history[0]))
    add('delete history of entry without', lambda: c.e2.delete_history(c.e1.history[0]))
    add('delete all history of entry without', lambda: c.e2.delete_history(all=True))
    for k in ('absent', 'Title', 'Password', 'otp', 'History', '', '"', 'k"'):
        add('delete property %r' % k, lambda k=k: c.e0.delete_custom_property(k))
        if k in K.REFUSED:
            add('set property %r' % k, lambda k=k: c.e0.set_custom_property(k, 'v'))
            add('get property %r' % k, lambda k=k: c.e0.get_custom_property(k))
            add('protected %r' % k, lambda k=k: c.e0.is_custom_property_protected(k))
    # files and credentials
    odata, otk, _ = OTHER[c.v]
    other = os.path.join(c.dir, 'other.kdbx')
    cur = c.get(c.path)

    def with_file(data, fn):
        def run():
            c.put(other, data)
            try:
                fn()
            finally:
                os.unlink(other)
        return run
    for nm, kw in (('no credentials', {}), ('wrong password', dict(password='x')), ('our credentials', dict(password=PW, keyfile=c.key)), ('bad password type', dict(password=5)),
                   ('missing key file', dict(password='otherpw', keyfile=os.path.join(c.dir, 'none'))), ('wrong key', dict(transformed_key=b'\0' * 32)),
                   ('short key', dict(transformed_key=b'x')), ('bad key type', dict(transformed_key='text')), ('key file is directory', dict(password='otherpw', keyfile=c.dir)),
                   ('bad text password', dict(password='\ud800'))):
        add('read other file: ' + nm, with_file(odata, lambda kw=kw: kp.read(other, **kw)))
        add('read other stream: ' + nm, lambda kw=kw: kp.read(io.BytesIO(odata), **kw))
    for nm, data in (('empty', b''), ('not kdbx', b'hello' * 100), ('kdbx signature only', odata[:12]), ('half', odata[:len(odata) // 2]), ('damaged', odata[:-40] + bytes(40)),
                     ('header damaged', odata[:40] + b'\xff' + odata[41:]), ('version', odata[:10] + b'\x09\x00' + odata[12:])):
        add('read %s file' % nm, with_file(data, lambda: kp.read(other, password='otherpw')))
        add('read %s file, no decryption' % nm, with_file(data, lambda: kp.read(other, decrypt=False)) if nm in ('empty', 'not kdbx', 'kdbx signature only', 'version') else (lambda: kp.read(os.path.join(c.dir, 'x'))))

        def reload_damaged(data=data):
            with missing(c, c.path, data):
                kp.reload()
        add('reload %s file' % nm, reload_damaged)
    add('read missing file', lambda: kp.read(os.path.join(c.dir, 'none.kdbx'), password=PW))
    add('read directory', lambda: kp.read(c.dir, password=PW))

    def reload_missing():
        with missing(c, c.path):
            kp.reload()
    add('reload missing file', reload_missing)

    def key_missing(content, fn):
        def run():
            with missing(c, c.key, content):
                fn()
        return run
    for nm, fn in (('reload', lambda: kp.reload()), ('save', lambda: kp.save()), ('save elsewhere', lambda: kp.save(os.path.join(c.dir, 'new.kdbx'))), ('save to stream', lambda: kp.save(io.BytesIO()))):
        add(nm + ' without key file', key_missing(None, fn))
    add('reload with other key file', key_missing(b'something else', lambda: kp.reload()))
    add('reload with broken xml key file', key_missing(b'<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="00000000">' + b'11' * 32 + b'</Data></Key></KeyFile>', lambda: kp.reload()))
    for nm, target in (('missing directory', os.path.join(c.dir, 'no', 'such.kdbx')), ('directory', c.dir), ('below a file', os.path.join(c.path, 'x')), ('name too long', os.path.join(c.dir, 'x' * 300))):
        add('save to ' + nm, lambda target=target: kp.save(target))
        add('dump_xml to ' + nm, lambda target=target: kp.dump_xml(target))
    for nm, k in (('text', 'x'), ('number', 5)):
        add('save with transformed key of type ' + nm, lambda k=k: kp.save(transformed_key=k))

    class Full(io.BytesIO):
        def write(self, b):
            raise OSError('no space left')

    class Later(io.BytesIO):
        def write(self, b):
            if self.tell() > 50:
                raise OSError('no space left')
            return super().write(b)

    class NoRead(io.BytesIO):
        def read(self, *a):
            raise OSError('input/output error')

    class Part(io.BytesIO):
        def read(self, n=-1):
            if self.tell() > 300:
                raise OSError('input/output error')
            return super().read(n)
    add('save to full stream', lambda: kp.save(Full()))
    add('save to stream that fills up', lambda: kp.save(Later()))
    add('read unreadable stream', lambda: kp.read(NoRead(odata), password='otherpw'))
    add('read stream that breaks', lambda: kp.read(Part(cur), password=kp.password, keyfile=c.key))
    return out


# ---------------------------------------------------------------- judgement
def one(case):
    """Calls lo..hi-1 of the catalogue one after another; a call that is accepted is followed by a fresh start"""
    v, state, lo, hi = case
    c = Ctx(v, state)
    try:
        before = None
        todo = calls(c)
        seen = set()
        for n in range(lo, min(hi, len(todo))):
            if before is None:
                before = c.state()
            name, fn = todo[n]
            try:
                fn()
            except Exception as e:
                what = type(e).__name__
            else:
                seen.add('accepted')
                c.close()
                c = Ctx(v, state)
                todo, before = calls(c), None
                continue
            after = c.state()
            if after != before:
                fail('%s raised %s and changed the database: %s' % (name, what, first_diff(after, before)), 'changed by ' + name.split(' bad')[0])
            seen.add(what)
        return ','.join(sorted(seen))
    finally:
        c.close()


def names(v=4, state='plain'):
    c = Ctx(v, state)
    try:
        return [n for n, _ in calls(c)]
    finally:
        c.close()


# ---- what follows a failed call is as if it had not happened
def followups(c):
    kp = c.kp
    return [('add entry', lambda: kp.add_entry(c.root, 'follow', 'u', 'p', tags=['x'])), ('add group', lambda: kp.add_group(c.g1, 'follow')),
            ('set title', lambda: setattr(c.e0, 'title', 'follow')), ('set password', lambda: setattr(c.e2, 'password', 'follow')),
            ('set property', lambda: c.e0.set_custom_property('k', 'follow')), ('set uuid', lambda: setattr(c.e1, 'uuid', C.uid('follow'))),
            ('move entry', lambda: kp.move_entry(c.e0, c.g2)), ('move group', lambda: kp.move_group(c.g2, c.root)), ('trash', lambda: kp.trash_entry(c.e1)),
            ('trash group', lambda: kp.trash_group(c.g1)), ('delete', lambda: kp.delete_entry(c.e2)), ('add binary', lambda: kp.add_binary(b'follow')),
            ('attach', lambda: c.e2.add_attachment(kp.add_binary(b'f'), 'follow')), ('history', lambda: c.e0.save_history()), ('reindex', lambda: c.e2.reindex(0)),
            ('password', lambda: setattr(kp, 'password', 'third')), ('save', lambda: kp.save()), ('save elsewhere', lambda: kp.save(os.path.join(c.dir, 'z.kdbx'))),
            ('reload', lambda: kp.reload()), ('delete binary', lambda: len(kp.binaries) and kp.delete_binary(0)), ('name', lambda: setattr(kp, 'database_name', 'follow'))]


def mask(x, ids):
    """Identifiers of new elements and current times are not comparable between two runs"""
    if isinstance(x, dict):
        return {k: mask(v, ids) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return tuple(mask(v, ids) for v in x)
    if isinstance(x, datetime):
        return x if x.year < 2024 else 'NOW'
    if isinstance(x, str) and len(x) == 32 and x not in ids and all(ch in '0123456789abcdef' for ch in x):
        return 'NEW'
    return x


IDS = {C.uid(l).hex for l in ('root', 'g1', 'g2', 'rb', 'e0', 'e1', 'e2', 'e3', 'e4', 'follow')}


def after(c, k):
    followups(c)[k][1]()
    if followups(c)[k][0] == 'reload':
        c.take()
    s = io.BytesIO()
    c.kp.save(s)
    db = R.decode(s.getvalue(), comp=R.composite(c.kp.password, KEY))
    files = {}
    for n in sorted(os.listdir(c.dir)):
        if n.endswith('.kdbx'):
            d = R.decode(c.get(os.path.join(c.dir, n)), comp=R.composite(c.kp.password if followups(c)[k][0].startswith('save') else PASSWORDS[c.st], KEY))
            files[n] = mask(K.ref_observe(d), IDS)
        else:
            files[n] = c.get(os.path.join(c.dir, n))
    return dict(view=mask(K.observe(c.kp), IDS), saved=mask(K.ref_observe(db), IDS), files=files, cred=(c.kp.password, os.path.basename(c.kp.keyfile or '')), name=os.path.basename(c.kp.filename))


PASSWORDS = dict(plain=PW, edited=PW, saved='second', sparse=PW)


BASE = {}      # result of the operation without a failed call before it


def follow(case):
    v, state, n = case
    c = Ctx(v, state)
    try:
        name, fn = calls(c)[n]
        try:
            fn()
            return 'accepted'
        except Exception:
            pass
        N = len(followups(c))
    finally:
        c.close()
    for k in range(N):
        res = [BASE[v, state, k]] if (v, state, k) in BASE else []
        for failing in (False, True)[len(res):]:
            c = Ctx(v, state)
            c.st = state
            try:
                if failing:
                    try:
                        calls(c)[n][1]()
                    except Exception:
                        pass
                res.append(after(c, k))
                nm = followups(c)[k][0]
            finally:
                c.close()
        BASE[v, state, k] = res[0]
        expect(res[0] == res[1], lambda: 'after the failed %s, %s gives another result: %s' % (name, nm, first_diff(res[1], res[0])), 'follow-up of ' + name.split(' bad')[0])
    return 'same'


# ---- every damaged version of the file itself
def damage(case):
    v, kind, pos = case
    c = Ctx(v, 'edited')
    try:
        before = c.state()
        data = c.get(c.path)
        bad = data[:pos] if kind == 'cut' else data[:pos] + bytes([data[pos] ^ (1 if kind == 'low' else 0x80)]) + data[pos + 1:]
        c.put(c.path, bad)
        try:
            c.kp.reload()
        except Exception as e:
            what = type(e).__name__
        else:
            what = 'accepted'
        c.put(c.path, data)
        if what == 'accepted':
            return what
        st = c.state()
        expect(st == before, lambda: 'reloading a damaged file raised %s and changed the open database: %s' % (what, first_diff(st, before)), 'damaged reload')
        return what
    finally:
        c.close()


def rounds_of(v):
    """Format 3 cannot authenticate its number of rounds before using it: damage there may only cost time"""
    i = T[v].data.find(b'\x06\x08\x00', 12) if v == 3 else -1
    return range(i + 3, i + 11) if i >= 0 else ()


REPLAY = dict(calls=one, followups=follow, damage=damage)


def main(chk):
    q = chk.quick
    chk.assumptions += ['only calls that raise are judged; which of the catalogue are accepted is not']
    cases = []
    for v in (3, 4):
        for st in ('plain', 'edited', 'saved', 'sparse'):
            if q and (v, st) in ((3, 'saved'), (3, 'sparse'), (4, 'plain')):
                continue
            cases += [(v, st, n, n + 24) for n in range(0, len(names(v, st)), 24)]
    chk.run_cases('calls', cases, one, 'catalogue of failing calls x start states x formats')
    # one representative per kind of call: the first one that fails with each kind of text and each kind of object
    nm = names(4, 'edited')
    rep, seen = [], set()
    for i, s in enumerate(nm):
        key = s.rsplit(' ', 1)[0] if ' bad' in s and s.rsplit(' ', 1)[1].strip(']) ').isdigit() else s
        cls = s.rsplit(' ', 1)[1].strip('])') if key != s else ''
        if cls and q and cls not in ('1', '12') or (key, cls) in seen or q and (s.startswith(('find_', 'Entry(', 'e2.', 'e2 ')) or ' ref bad' in s or ' get ' in s):
            continue
        seen.add((key, cls))
        rep.append(i)
    chk.run_cases('followups', [(v, 'edited', n) for v in ((4,) if q else (3, 4)) for n in rep], follow, 'failed call x following operation, compared with the run without the failed call')
    dm = []
    for v in (3, 4):
        L = len(T[v].data)
        dm += [(v, k, p) for k in ('low', 'high', 'cut') for p in range(0, L, 5 if q else 1) if k == 'cut' or p not in rounds_of(v)]
    chk.run_cases('damage', dm, damage, 'reload of every damaged version of the file')
