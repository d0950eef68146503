"""C16: read accesses, exports and saves leave the open database alone.  Every public property of every kind of object (found by inspection, so new
ones are included), every search of the catalogue, exports and saves: each alone and twice, all ordered pairs, each before an edit, and saves
cut short at every write, at every line and by every cause of the catalogue."""
import io
import os
import shutil
import sys
import uuid
from datetime import datetime

import pykeepass
from lxml import etree
from pykeepass import PyKeePass
from pykeepass.attachment import Attachment
from pykeepass.baseelement import BaseElement
from pykeepass.entry import Entry

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail, first_diff

LEVEL = 'model_checking'
PW, KEY = 'pw', b'key file content'
F = dict(Title='t', UserName='u', Password='p', URL='l', Notes='n\n2', otp='o')
PKG = os.path.dirname(os.path.abspath(pykeepass.__file__)) + os.sep


def doc(v, kind):
    if kind == 'empty':
        return C.document(v, C.group(v, 'root', 'Root'))
    if kind == 'odd':       # elements other programs leave out or write differently; a recycle bin that is gone
        e0 = C.entry(v, 'e0', dict(F, Title=' padded ', Notes=None), tags=' a ; b ,', autotype=False, expires=True, custom=[('k', 'v', True), ('k', 'second', None)], binaries=[('f', 0), ('f', 0)],
                     history=[C.entry(v, 'e0', dict(Title='old'), tags='x')])
        e0.find('IconID').text = ' 7 '
        e1 = C.entry(v, 'e1', dict(Title='T', Password=''), tags=None)
        for t in ('Times', 'IconID', 'AutoType'):
            e1.remove(e1.find(t))
        e2 = C.entry(v, 'e2', dict(Title='t', UserName='{REF:U@T:T}'))
        e2.find('Times').remove(e2.find('Times/ExpiryTime'))
        e2.find('Times/Expires').text = 'true'
        e2.find('AutoType/Enabled').text = 'false'
        g = C.group(v, 'g1', 'G', e1)
        for t in ('Notes', 'IconID', 'Times'):
            g.remove(g.find(t))
        d = C.document(v, C.group(v, 'root', 'Root', e0, g, e2), binaries3=[(b'one', None), (b'two', False)], recyclebin=C.uid('gone'))
        for t in ('DatabaseName', 'DefaultUserName', 'MasterKeyChangeRec'):
            d.find('Meta').remove(d.find('Meta/' + t))
        return d
    e0 = C.entry(v, 'e0', F, custom=[('k', 'v', True), ('q"\'', 'w <&>', None), ('unprot', 'x', False), ('void', None, True)], tags='a;b,c', binaries=[('f', 0), ('g', 1), ('dangling', 7)],
                 history=[C.entry(v, 'e0', dict(F, Title='old', Password='oldpw'), custom=[('k', 'hv', True)], binaries=[('hf', 1)]), C.entry(v, 'e0', dict(F, Title='older'))], icon='3', expires=True)
    e1 = C.entry(v, 'e1', dict(Title='{REF:T@I:%s}' % C.uid('e0').hex.upper(), UserName='a{REF:P@T:t}b', Password='{REF:P@U:none}', Notes='{REF:N@I:%s}' % C.uid('e1').hex.upper()), autotype=False)
    e2 = C.entry(v, 'e2', {}, tags='')
    g2 = C.group(v, 'g2', None, C.entry(v, 'e3', dict(F, Title='ü" \''), history=[]))
    rb = C.group(v, 'rb', 'Bin', C.entry(v, 'e4', F))
    return C.document(v, C.group(v, 'root', 'Root', e0, e2, C.group(v, 'g1', 'G', e1, g2, notes='gn'), rb), binaries3=[(b'one', True), (b'two', False)], recyclebin=C.uid('rb'),
                      meta_extra=[C.el('CustomData', None, C.el('Item', None, C.el('Key', 'kk'), C.el('Value', 'vv')))])


def build(v, kind, **kw):
    db = R.RefDB(doc(v, kind), version=v, binaries=[(1, b'one'), (0, b'two')] if v == 4 and kind != 'empty' else (), **kw)
    return R.encode(db, R.transform(db, R.composite(PW, KEY)))


T = {(v, k): build(v, k) for v in (3, 4) for k in ('rich', 'empty', 'odd')}
T[4, 'chacha'] = build(4, 'rich', cipher='chacha20', stream='salsa20', compression=False)
T[4, 'twofish'] = build(4, 'rich', cipher='twofish')
T[4, 'edited'] = T[4, 'rich']
T[3, 'edited'] = T[3, 'rich']


class Ctx:
    def __init__(self, v, kind):
        self.dir = core.scratch()
        self.path, self.key = os.path.join(self.dir, 'db.kdbx'), os.path.join(self.dir, 'k.key')
        for p, d in ((self.path, T[v, kind]), (self.key, KEY)):
            with open(p, 'wb') as f:
                f.write(d)
        self.kp = kp = PyKeePass(self.path, PW, self.key)
        if kind == 'edited':        # unsaved changes
            e = kp.root_group.entries[0]
            e.title, e.password = 'edited', 'changed'
            e.save_history()
            e.set_custom_property('new', 'val', protect=True)
            kp.trash_entry(kp.root_group.entries[1])
            n = kp.add_entry(kp.root_group, 'new', 'entry', 'pw', tags=['x'], otp='otp', icon='4')
            n.uuid = C.uid('new')
            for h in (n, *kp.entries):
                h.ctime = h.mtime = h.atime = h.expiry_time = C.T0
            for t in kp.tree.iter('LocationChanged'):
                t.text = C.when(v, C.T0)
            n.add_attachment(kp.add_binary(b'three'), 'th')
            kp.password = 'new password'
            kp.credchange_date = C.T0
        self.pw = kp.password
        self.objs = self.take()

    def take(self):
        kp = self.kp
        out = {'kp': kp}
        gs, es = kp.find_groups(), kp.find_entries()
        for i, x in enumerate(gs):
            out['group%d' % i] = x
        for i, x in enumerate(es):
            out['entry%d' % i] = x
            if i == 0:
                for j, h in enumerate(x.history):
                    out['history%d' % j] = h
                for j, a in enumerate(x.attachments):
                    out['attachment%d' % j] = a
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def state(self):
        """Everything a later access or save shows"""
        kp = self.kp
        b = io.BytesIO()
        raw = etree.tostring(kp.tree, method='c14n')
        kp.save(b)
        db = R.decode(b.getvalue(), comp=R.composite(self.pw, KEY))
        return dict(view=view(kp), raw=raw, document=R.canon(db.xml), binaries=list(db.binaries or ()), header=db.header, cred=(kp.password, kp.keyfile, kp.filename, kp.version, kp.transformed_key),
                    handles=[norm(kp, x) for x in self.objs.values()])


def view(kp):
    """The public view; documents that lack elements have none, what they show is covered by the accesses themselves"""
    try:
        return K.observe(kp)
    except Exception as e:
        return type(e).__name__


def place(r):
    """Where in the document the object is"""
    x = next(x for x in vars(r).values() if isinstance(x, etree._Element))
    return x.getroottree().getpath(x)


def norm(kp, r):
    """Comparable form of a result"""
    if isinstance(r, (list, tuple)):
        return [norm(kp, x) for x in r]
    if isinstance(r, dict):
        return {k: norm(kp, x) for k, x in r.items()}
    if isinstance(r, BaseElement):
        return (type(r).__name__, place(r))
    if isinstance(r, Attachment):
        return ('Attachment', place(r))
    if isinstance(r, etree._Element):
        return ('element', r.getroottree().getpath(r))
    if isinstance(r, etree._ElementTree):
        return ('tree', etree.tostring(r, method='c14n'))
    if isinstance(r, PyKeePass):
        return 'kp'
    if r is None or isinstance(r, (str, bytes, int, float, bool, uuid.UUID, datetime)):
        return r
    return type(r).__name__


def properties(obj):
    out = []
    for n in sorted(dir(type(obj))):
        if not n.startswith('_') and isinstance(getattr(type(obj), n, None), property):
            out.append(n)
    return out


def reads(c):
    """(name, thunk) for every read access; the same list in every process"""
    kp = c.kp
    out = []

    def add(n, f):
        out.append((n, f))
    for n, o in c.objs.items():
        for p in properties(o):
            add('%s.%s' % (n, p), lambda o=o, p=p: getattr(o, p))
        add('str(%s)' % n, lambda o=o: str(o) if o is not kp else None)
        add('repr(%s)' % n, lambda o=o: repr(o) if o is not kp else None)
        if n != 'kp':
            add('%s == all' % n, lambda o=o: [o == x for x in c.objs.values()])
            if not n.startswith('attachment'):
                add('hash(%s)' % n, lambda o=o: hash(o) and 1)
                add('%s.dump_xml()' % n, lambda o=o: o.dump_xml())
                add('%s.dump_xml(pretty)' % n, lambda o=o: o.dump_xml(pretty_print=True))
        if n.startswith(('entry', 'history')):
            for a in ('title', 'username', 'password', 'notes', 'uuid', 'url'):
                add('%s.deref(%s)' % (n, a), lambda o=o, a=a: o.deref(a))
                add('%s.ref(%s)' % (n, a), lambda o=o, a=a: o.ref(a))
            for k in ('k', 'q"\'', 'absent', 'void'):
                add('%s.get_custom_property(%s)' % (n, k), lambda o=o, k=k: o.get_custom_property(k))
                add('%s.is_custom_property_protected(%s)' % (n, k), lambda o=o, k=k: o.is_custom_property_protected(k))
    g1 = kp.find_groups(name='G', first=True)
    searches = []
    for k, vals in (('title', ('t', 'absent', 'ü" \'')), ('username', ('u',)), ('password', ('p',)), ('url', ('l',)), ('notes', ('n\n2',)), ('otp', ('o',)), ('tags', (['a'], ['a', 'b'], [])),
                    ('uuid', (C.uid('e0'), C.uid('none'))), ('string', ({'k': 'v'}, {'k': 'v', 'q"\'': 'w <&>'}, {})), ('autotype_enabled', (True,)), ('path', (['t'], ['G', 't'], ['G', None, 'ü" \''], [])),
                    ('group', (g1,)), ('nonsense', (1,))):
        searches += [('find_entries', {k: x}) for x in vals]
    for k, vals in (('name', ('G', 'absent')), ('notes', ('gn',)), ('uuid', (C.uid('g1'),)), ('path', (['G'], ['G', None], '', [])), ('group', (g1,))):
        searches += [('find_groups', {k: x}) for x in vals]
    for k, vals in (('filename', ('f', 'absent')), ('id', (0, 1, 9)), ('element', (g1,))):
        searches += [('find_attachments', {k: x}) for x in vals]
    for fn, kw in searches:
        for extra in ({}, dict(history=True), dict(regex=True, flags='i'), dict(first=True), dict(recursive=False)):
            add('%s(%s)' % (fn, ', '.join('%s=%s' % x for x in {**kw, **extra}.items())), lambda fn=fn, kw=kw, extra=extra: keep_args(kp, fn, {**kw, **extra}))
    for fn, a in (('find_entries_by_title', 't'), ('find_entries_by_username', 'u'), ('find_entries_by_password', 'p'), ('find_entries_by_url', 'l'), ('find_entries_by_notes', 'n\n2'), ('find_entries_by_path', ['t']),
                  ('find_entries_by_uuid', C.uid('e0')), ('find_entries_by_string', {'k': 'v'}), ('find_groups_by_name', 'G'), ('find_groups_by_path', ['G']), ('find_groups_by_uuid', C.uid('g1')), ('find_groups_by_notes', 'gn')):
        add('%s(%s)' % (fn, a), lambda fn=fn, a=a: getattr(kp, fn)(a))
    for x in ('//Entry', '//Group', '/KeePassFile/Meta/*', '//Nothing'):
        add('xpath(%s)' % x, lambda x=x: kp.xpath(x))
    add('xpath(//Entry, cast)', lambda: kp.xpath('//Entry', cast=True))
    for x in ('{REF:P@T:t}', 'x{REF:T@U:u}{REF:U@T:t}', '{REF:T@I:%s}' % C.uid('e0').hex, 'plain', '', None, '{REF:P@T:absent}'):
        add('deref(%s)' % x, lambda x=x: kp.deref(x))
    add('xml()', lambda: kp.xml())
    add('dump_xml()', lambda: [kp.dump_xml(os.path.join(c.dir, 'dump.xml')), open(os.path.join(c.dir, 'dump.xml'), 'rb').read()])
    add('with', lambda: [kp.__enter__() is kp, kp.__exit__(None, None, None)])
    # saves; what they write is judged by the state comparison and other properties
    add('save to stream', lambda: kp.save(io.BytesIO()))
    add('save to another path', lambda: kp.save(os.path.join(c.dir, 'copy.kdbx')))
    add('save', lambda: kp.save())
    add('save with key', lambda: kp.save(io.BytesIO(), transformed_key=bytes(range(32))))
    for n, f in failing_saves(c):
        add(n, f)
    return out


def keep_args(kp, fn, kw):
    """A search does not change its arguments"""
    import copy
    mut = {k: copy.copy(x) for k, x in kw.items() if isinstance(x, (list, dict))}
    r = getattr(kp, fn)(**kw)
    for k, x in mut.items():
        expect(kw[k] == x, lambda: '%s changed its argument %s: %r -> %r' % (fn, k, x, kw[k]))
    return r


class Breaks(io.BytesIO):
    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, b):
        if self.tell() + len(b) > self.n:
            raise OSError('no space left')
        return super().write(b)


def failing_saves(c):
    kp = c.kp
    full = len(K.save_bytes(kp))
    out = [('save to full stream at %d' % n, lambda n=n: kp.save(Breaks(n))) for n in sorted({0, 1, 12, 100, full // 2, full - 1})]

    def nokey():
        with open(c.key, 'rb') as f:
            k = f.read()
        os.unlink(c.key)
        try:
            kp.save(io.BytesIO())
        finally:
            with open(c.key, 'wb') as f:
                f.write(k)
    out += [('save without key file', nokey), ('save to directory', lambda: kp.save(c.dir)), ('save to missing directory', lambda: kp.save(os.path.join(c.dir, 'no', 'x.kdbx'))),
            ('save with bad key', lambda: kp.save(io.BytesIO(), transformed_key='x'))]
    return out


def outcome(c, f):
    try:
        r = norm(c.kp, f())
        return ('ok', r.replace(c.dir, '@') if isinstance(r, str) else r)
    except core.Violation:
        raise
    except Exception as e:
        return ('error', type(e).__name__)


BASE = {}


def fresh(v, kind, n):
    """Result of the access on a freshly opened database"""
    if (v, kind, n) not in BASE:
        c = Ctx(v, kind)
        try:
            BASE[v, kind, n] = outcome(c, reads(c)[n][1])
        finally:
            c.close()
    return BASE[v, kind, n]


def single(case):
    v, kind, n = case
    c = Ctx(v, kind)
    try:
        rs = reads(c)
        name, f = rs[n]
        before = c.state()
        first = outcome(c, f)
        after = c.state()
        expect(after == before, lambda: '%s changed the database: %s' % (name, first_diff(after, before)), 'changed')
        again = outcome(c, f)
        eq(again, first, 'second result of ' + name)
        eq(first, fresh(v, kind, n), 'result of %s after a save' % name)
        expect(c.state() == before, lambda: 'second %s changed the database: %s' % (name, first_diff(c.state(), before)), 'changed')
        return first[0] if first[0] == 'ok' else first[1]
    finally:
        c.close()


def pairs(case):
    """One access, then each of the others: results as on a fresh database"""
    v, kind, n, step = case
    c = Ctx(v, kind)
    try:
        rs = reads(c)
        before = c.state() if n % 8 == 0 else None
        outcome(c, rs[n][1])
        for k in range((n % step), len(rs), step):
            eq(outcome(c, rs[k][1]), fresh(v, kind, k), '%s after %s' % (rs[k][0], rs[n][0]))
        st = c.state()
        d = Ctx(v, kind)
        try:
            want = before or d.state()
            for x in (st, want):        # file names and sizes differ between directories only in these
                x['cred'] = (x['cred'][0], *x['cred'][3:])
            expect(st == want, lambda: 'accesses after %s changed the database: %s' % (rs[n][0], first_diff(st, want)), 'changed')
        finally:
            d.close()
        return 'same'
    finally:
        c.close()


def edits(c):
    kp = c.kp
    o = c.objs
    e, g = o.get('entry0'), o['group0']
    out = [('name', lambda: setattr(kp, 'database_name', 'n')), ('add group', lambda: setattr(kp.add_group(g, 'added'), 'uuid', C.uid('added')))]

    def add():
        x = kp.add_entry(g, 'added', 'u', 'p', tags=['a'])
        x.uuid = C.uid('added')
    out += [('add entry', add), ('add binary', lambda: kp.add_binary(b'added'))]
    if e is not None:
        g1 = kp.find_groups(name='G', first=True)
        for a, x in (('title', 'T2'), ('username', 'U2'), ('password', 'P2'), ('url', 'L2'), ('notes', 'N2'), ('otp', 'O2'), ('tags', ['z']), ('icon', '7'), ('uuid', C.uid('other')), ('expires', False), ('expiry_time', C.T0.replace(year=2040)),
                     ('mtime', C.T0.replace(year=2021)), ('autotype_enabled', False), ('autotype_sequence', 's'), ('autotype_window', 'w')):
            out.append(('entry.' + a, lambda a=a, x=x: setattr(e, a, x)))
        out += [('property', lambda: e.set_custom_property('k', 'v2')), ('new property', lambda: e.set_custom_property('k3', 'v3', protect=True)), ('delete property', lambda: e.delete_custom_property('k')),
                ('move', lambda: kp.move_entry(e, g1)), ('trash', lambda: kp.trash_entry(e)), ('delete', lambda: kp.delete_entry(e)), ('reindex', lambda: e.reindex(1)),
                ('history', lambda: e.save_history()), ('delete history', lambda: e.delete_history(e.history[0])), ('delete all history', lambda: e.delete_history(all=True)),
                ('attach', lambda: e.add_attachment(1, 'more')), ('detach', lambda: e.delete_attachment(e.attachments[0])), ('delete binary', lambda: kp.delete_binary(0)),
                ('group name', lambda: setattr(g1, 'name', 'G2')), ('move group', lambda: kp.move_group(g1, kp.recyclebin_group)), ('trash group', lambda: kp.trash_group(g1)), ('empty group', lambda: kp.empty_group(g1)),
                ('delete bin', lambda: kp.delete_group(kp.recyclebin_group)), ('attachment name', lambda: setattr(e.attachments[0], 'filename', 'other')), ('attachment id', lambda: setattr(e.attachments[0], 'id', 1))]
    return out


def mask(x):
    if isinstance(x, dict):
        return {k: mask(y) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return tuple(mask(y) for y in x)
    if isinstance(x, datetime):
        return x if x.year < 2024 or x.year > 2035 else 'NOW'
    return x


def around(case):
    """All accesses, an edit, all accesses: the second round is what a database shows that was not accessed before the edit"""
    v, kind, m = case
    res = []
    for access in (False, True):
        c = Ctx(v, kind)
        try:
            rs = reads(c)
            if access:
                for _, f in rs:
                    outcome(c, f)
            name, e = edits(c)[m]
            r = outcome(c, e)
            obs = mask(view(c.kp))
            out = []
            c.objs = {k: o for k, o in c.objs.items()}
            for n, (nm, f) in enumerate(rs):
                if 'xml' in nm or 'time' in nm or 'tree' in nm or 'payload' in nm or nm.startswith(('hash', 'save')):
                    continue    # current times
                out.append((nm, mask(outcome(c, f)[1])))
            s = io.BytesIO()
            c.kp.save(s)
            db = R.decode(s.getvalue(), comp=R.composite(c.pw, KEY))
            try:
                saved = mask(K.ref_observe(db))
            except Exception as x:
                saved = str(x)
            res.append((r, obs, out, saved))
        finally:
            c.close()
    expect(res[0] == res[1], lambda: 'after reading everything, %s has another effect: %s' % (name, first_diff(res[1], res[0])), 'edit after access')
    return name


class Interrupt(BaseException):
    pass


def lines_of(kp, target, at=None):
    """Run save with a line counter over the package; raise at line number `at`"""
    n = [0]

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return trace if event == 'call' else None
        if event == 'line':
            n[0] += 1
            if n[0] == at:
                raise Interrupt()
        return trace
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        kp.save(target)
    except (Interrupt, Exception):
        if at is None:
            raise
    finally:
        sys.settrace(old)
    return n[0]


def cut(case):
    """A save interrupted at a given line of the package"""
    v, kind, how, lo, hi = case
    c = Ctx(v, kind)
    try:
        before = c.state()
        for at in range(lo, hi):
            target = io.BytesIO() if how == 'stream' else c.path
            lines_of(c.kp, target, at)
            st = c.state()
            expect(st == before, lambda: 'a save interrupted at line event %d changed the open database: %s' % (at, first_diff(st, before)), 'interrupted save')
        return 'same'
    finally:
        c.close()


def broken(case):
    """A save to a stream that fails at each position"""
    v, kind, lo, hi = case
    c = Ctx(v, kind)
    try:
        before = c.state()
        for n in range(lo, hi):
            try:
                c.kp.save(Breaks(n))
            except Exception:
                pass
        st = c.state()
        expect(st == before, lambda: 'saves failing between byte %d and %d changed the open database: %s' % (lo, hi, first_diff(st, before)), 'failed save')
        return 'same'
    finally:
        c.close()


REPLAY = dict(single=single, pairs=pairs, around=around, cut=cut, broken=broken)


def main(chk):
    q = chk.quick
    chk.assumptions += ['which accesses raise is not judged here, only that they change nothing and repeat']
    kinds = [(4, 'rich'), (3, 'edited'), (3, 'empty'), (4, 'odd'), (3, 'odd')] if q else list(T)

    def count(v, k, what=reads):
        c = Ctx(v, k)
        try:
            return len(what(c))
        finally:
            c.close()
    chk.run_cases('single', [(v, k, n) for v, k in list(T) for n in range(count(v, k)) if not q or (v, k) in kinds or n % 2 == 0], single, 'every access alone and twice, full state compared')
    for v, k in kinds:      # results on a fresh database, inherited by the workers
        for n in range(count(v, k)):
            fresh(v, k, n)
    chk.run_cases('pairs', [(v, k, n, 1) for v, k in kinds for n in range(count(v, k)) if not q or (v, k) == (4, 'rich') or n % 3 == 0], pairs,
                  'every access followed by every other one in a row')
    chk.run_cases('around', [(v, k, m) for v, k in T if k != 'empty' for m in range(count(v, k, edits))], around, 'all accesses x edit x all accesses')
    cs = []
    for v, k in ([(4, 'rich'), (3, 'rich')] if q else list(T)):
        for how in ('stream', 'path'):
            c = Ctx(v, k)
            try:
                n = lines_of(c.kp, io.BytesIO() if how == 'stream' else c.path)
            finally:
                c.close()
            cs += [(v, k, how, i, min(i + 8, n + 1)) for i in range(1, n + 1, 8)]
    chk.run_cases('cut', cs, cut, 'save interrupted at every line executed in the package')
    bs = []
    for v, k in ([(4, 'rich'), (3, 'rich')] if q else list(T)):
        bs += [(v, k, i, i + 16) for i in range(0, len(T[v, k]), 16)]
    chk.run_cases('broken', bs, broken, 'save to a stream failing at every byte')
