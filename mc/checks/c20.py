"""C20: content the library does not interpret.  A document with foreign content of every kind at every position, header items and binary flags, written
by the independent codec; opened, edited or not, saved, and read back by the independent codec; compared with the same edit made by a model."""
import base64
import copy
import hashlib
import io
import itertools
import xml.etree.ElementTree as ET
from xml.parsers import expat

from pykeepass import PyKeePass

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail, first_diff

LEVEL = 'model_checking'
F = dict(Title='t', UserName='u', Password='p', URL='l', Notes='n', otp='o')
el = C.el
BINS = [(1, b'one'), (0, b'two'), (1, b'three')]
COMP = R.composite('pw')


def foreign_entry(v, e):
    """What other programs store in an entry"""
    for x in (el('ForegroundColor', '#FF0000'), el('BackgroundColor', None), el('OverrideURL', 'cmd://x'), el('QualityCheck', 'False'), el('CustomIconUUID', C.b64(C.uid('icon').bytes)),
              el('PreviousParentGroup', C.b64(C.uid('g1').bytes)), el('CustomData', None, el('Item', None, el('Key', 'k1'), el('Value', 'v1'), el('LastModificationTime', C.when(v, C.T0))),
                                                                      el('Item', None, el('Key', 'k2'), el('Value', 'secret v2', Protected='True')))):
        e.append(x)
    at = e.find('AutoType')
    if at is not None:
        at.append(el('Association', None, el('Window', 'second*'), el('KeystrokeSequence', '{TAB}')))
    return e


def doc(v, order='normal'):
    h = [foreign_entry(v, C.entry(v, 'e0', dict(F, Title='old', Password='oldpw'), custom=[('k', 'hv', True)], binaries=[('hf', 1)])), C.entry(v, 'e0', dict(F, Title='older'))]
    e0 = foreign_entry(v, C.entry(v, 'e0', F, custom=[('k', 'v', True), ('q', 'w', None), ('z', 'y', False)], tags='a;b', binaries=[('f', 0), ('g', 2)], history=h, icon='3'))
    e1 = foreign_entry(v, C.entry(v, 'e1', dict(F, Title='s'), binaries=[('f2', 1)]))
    e2 = C.entry(v, 'e2', {}, autotype=False)
    g2 = C.group(v, 'g2', 'H', C.entry(v, 'e3', F))
    g1 = C.group(v, 'g1', 'G', e1, g2, notes='gn')
    rb = C.group(v, 'rb', 'Bin', C.entry(v, 'e4', F))
    for g in (g1, rb):
        for x in (el('DefaultAutoTypeSequence', '{X}'), el('LastTopVisibleEntry', C.ZERO), el('CustomData', None, el('Item', None, el('Key', 'gk'), el('Value', 'gv'))), el('Tags', 'gt'), el('CustomIconUUID', C.ZERO)):
            g.append(x)
    meta = [el('SettingsChanged', C.when(v, C.T0)), el('CustomIcons', None, el('Icon', None, el('UUID', C.b64(C.uid('icon').bytes)), el('Data', C.b64(b'PNG' * 5)), el('Name', 'icon'))),
            el('CustomData', None, el('Item', None, el('Key', 'mk'), el('Value', 'mv'))), el('EntryTemplatesGroup', C.ZERO), el('LastSelectedGroup', C.ZERO)]
    d = C.document(v, C.group(v, 'root', 'Root', e0, e2, g1, rb), binaries3=[(b'one', True), (b'two', False), (b'three', True)], recyclebin=C.uid('rb'), meta_extra=meta)
    dl = d.find('Root/DeletedObjects')
    for i in range(2):
        dl.append(el('DeletedObject', None, el('UUID', C.b64(C.uid('del%d' % i).bytes)), el('DeletionTime', C.when(v, C.T0))))
    if v == 3:
        d.find('Meta/Binaries')[1].set('Protected', 'True')
    if order == 'reversed':
        for x in d.iter():
            if x.tag in ('Entry', 'Group', 'Times', 'String', 'AutoType', 'Meta', 'Root', 'KeePassFile', 'Item', 'Association', 'DeletedObject', 'Binaries'):
                x[:] = list(x)[::-1]
    for i, x in enumerate(d.iter()):
        x.set('x', str(i))
    return d


# ---------------------------------------------------------------- foreign content
LEAF = {'Key', 'Value', 'UUID', 'IconID', 'Name', 'Notes', 'Tags', 'Window', 'Binary'}
KINDS = ('child first', 'child last', 'tree', 'attribute', 'attributes', 'comment', 'pi', 'mixed', 'namespace', 'blank', 'twins', 'known attribute', 'lookalike')


def inject(x, kind, n):
    """Add foreign content of a kind to element x; leaves keep their text in front"""
    m = 'm%d' % n
    if kind == 'child first':
        if not x.text:
            x.insert(0, el('Foreign', 'text ' + m, m=m))
    elif kind == 'child last':
        x.append(el('Foreign', None, m=m))
    elif kind == 'tree':
        x.append(el('Foreign', None, el('A', 'a', el('B', 'b\nc', b='1')), el('A', None), el('Value', 'secret ' + m, Protected='True'), el('Key', 'Title'), m=m))
    elif kind == 'attribute':
        x.set('foreign', m)
    elif kind == 'attributes':
        for k, v in (('a', ''), ('b', '<&>"\''), ('c', 'tab\there'), ('d', 'line\nbreak'), ('e', '  sp  '), ('f', 'ünï\U0001f511'), ('g-h.i_j', '1')):
            x.set(k, v + (m if k == 'g-h.i_j' else ''))
    elif kind == 'comment':
        x.insert(len(x) // 2 if not x.text else len(x), ET.Comment(' %s <x> & ' % m))
    elif kind == 'pi':
        x.append(ET.PI('app', m))
    elif kind == 'mixed':
        y = el('Foreign', 'one ', el('B', 'two'), m=m)
        y[0].tail = ' three \n'
        x.append(y)
    elif kind == 'namespace':
        x.append(el('{urn:foreign}Thing', 'ns', **{'{urn:foreign}at': m}))
    elif kind == 'blank':
        x.append(el('Foreign', ' ', m=m))
        x.append(el('Foreign', '\n', m=m))
    elif kind == 'twins':
        for i in range(3):
            x.append(el('Foreign', str(i), m=m))
    elif kind == 'known attribute':
        for a, v in (('Ref', '0'), ('ID', '0'), ('Compressed', 'True')):
            if a not in x.attrib and x.tag not in ('Value', 'Binary'):
                x.set(a, v)
        x.set('Hash', m)
    elif kind == 'lookalike':
        x.append(el('entry', None, el('String', None, el('Key', 'Title'), el('Value', 'fake')), m=m))


def ser(x, top=True):
    def esc(t):
        return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if x.tag is ET.Comment:
        return '<!--%s-->' % x.text
    if x.tag is ET.PI:
        return '<?%s?>' % x.text

    def name(t):
        return 'f:' + t[len('{urn:foreign}'):] if t.startswith('{') else t
    a = ''.join(' %s="%s"' % (name(k), esc(v).replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')) for k, v in x.attrib.items())
    if top:
        a += ' xmlns:f="urn:foreign"'
    inner = esc(x.text or '') + ''.join(ser(c, False) + esc(c.tail or '') for c in x)
    return '<%s%s>%s</%s>' % (name(x.tag), a, inner, name(x.tag)) if inner else '<%s%s/>' % (name(x.tag), a)


class Cfg:
    def __init__(self, v, **kw):
        self.v = v
        self.db = R.RefDB(None, version=v, binaries=BINS if v == 4 else (), **kw)
        self.tk = R.transform(self.db, COMP)

    def write(self, d, prolog='', epilog='', raw={}):
        """raw: label of a protected value -> bytes (inner plaintext) or text (stored as is)"""
        db = self.db
        d = copy.deepcopy(d)
        header = R.header_bytes(db)
        if self.v == 3:
            d.find('Meta/HeaderHash').text = C.b64(hashlib.sha256(header).digest())
        c = R.stream_cipher(db.stream, db.stream_key)
        for x in R.iter_protected(d):
            r = raw.get(x.get('x'))
            if isinstance(r, str):
                x.text = r
            elif r is not None:
                x.text = C.b64(c.encrypt(r))
            elif x.text:
                x.text = R.secret(x, c, True)
        return R.encode(db, self.tk, xml=('<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n' + prolog + ser(d) + epilog).encode('utf-8'))


def read(data):
    """(RefDB, document with comments and processing instructions, protected values decrypted)"""
    db = R.decode(data, comp=COMP)
    d = ET.fromstring(db.xml_bytes, ET.XMLParser(target=ET.TreeBuilder(insert_comments=True, insert_pis=True)))
    c = R.stream_cipher(db.stream, db.stream_key)
    for x in R.iter_protected(d):
        if x.text:
            x.text = R.secret(x, c, False)
    return db, d


def canon(x, exempt=frozenset(), new=True):
    """Comparable form; exempt elements and, with new=False, elements the library added are left out.  Formatting whitespace does not count."""
    if not isinstance(x.tag, str):
        return ('comment' if x.tag is ET.Comment else 'pi', x.text)
    if x.get('x') in exempt:
        return None
    kids = [k for k in (canon(c, exempt, new) for c in x) if k is not None]
    tails = [c.tail.strip() for c in x if c.tail and c.tail.strip()]
    text = x.text or ''
    if len(x) and not text.strip() and x.tag != 'Foreign':
        text = ''
    if x.tag == 'HeaderHash':
        text = ''
    if not new and 'x' not in x.attrib and 'm' not in x.attrib and not labelled(x):
        return None
    return (x.tag, tuple(sorted(x.attrib.items())), text, tuple(kids), tuple(tails))


FOREIGN_TAGS = ('Foreign', 'A', 'B', '{urn:foreign}Thing', 'entry')


def labelled(x):
    """Part of the original document or of foreign content"""
    return any('x' in y.attrib or 'm' in y.attrib for y in x.iter() if isinstance(y.tag, str)) or x.tag in FOREIGN_TAGS


# ---------------------------------------------------------------- edits
class M:
    """The document edited by the model; `ex` labels elements the edit may replace, drop or rewrite"""

    def __init__(self, d, v):
        self.d, self.v, self.ex = d, v, set()
        self.bins = list(BINS) if v == 4 else None
        self.parent = {c: p for p in d.iter() for c in p}

    def e(self, label, tag='Entry'):
        u = C.b64(C.uid(label).bytes)
        for x in self.d.find('Root').iter(tag):
            if x.findtext('UUID') == u and self.up(x).tag != 'History':
                return x

    def up(self, x):
        for p in self.d.iter():
            if any(c is x for c in p):
                return p

    def free(self, x):
        if x is not None:
            for y in x.iter():
                if isinstance(y.tag, str) and y.get('x'):
                    self.ex.add(y.get('x'))

    def string(self, e, key):
        for s in e.findall('String'):
            if s.findtext('Key') == key:
                return s

    def move(self, x, dest, at=None):
        self.up(x).remove(x)
        if at is None:
            dest.append(x)
        else:
            dest.insert(at, x)

    def drop(self, x):
        self.up(x).remove(x)


def entry_of(kp, label):
    return kp.find_entries(uuid=C.uid(label), first=True)


def group_of(kp, label):
    return kp.find_groups(uuid=C.uid(label), first=True)


def edits():
    out = [('nothing', lambda kp: None, lambda m: None)]

    def add(n, real, model):
        out.append((n, real, model))
    for a, key in (('title', 'Title'), ('username', 'UserName'), ('password', 'Password'), ('url', 'URL'), ('notes', 'Notes'), ('otp', 'otp')):
        for e in ('e0', 'e2'):
            add('%s.%s' % (e, a), lambda kp, a=a, e=e: setattr(entry_of(kp, e), a, 'new'), lambda m, key=key, e=e: m.free(m.string(m.e(e), key)))
    for a, tag, val in (('tags', 'Tags', ['q']), ('icon', 'IconID', '9')):
        add('e0.' + a, lambda kp, a=a, val=val: setattr(entry_of(kp, 'e0'), a, val), lambda m, tag=tag: m.free(m.e('e0').find(tag)))
    for a, tag in (('ctime', 'CreationTime'), ('mtime', 'LastModificationTime'), ('atime', 'LastAccessTime'), ('expiry_time', 'ExpiryTime'), ('expires', 'Expires')):
        add('e0.' + a, lambda kp, a=a: setattr(entry_of(kp, 'e0'), a, True if a == 'expires' else C.T0.replace(year=2030)), lambda m, tag=tag: m.free(m.e('e0').find('Times/' + tag)))
        add('g1.' + a, lambda kp, a=a: setattr(group_of(kp, 'g1'), a, True if a == 'expires' else C.T0.replace(year=2030)), lambda m, tag=tag: m.free(m.e('g1', 'Group').find('Times/' + tag)))
    add('touch', lambda kp: entry_of(kp, 'e1').touch(modify=True), lambda m: [m.free(m.e('e1').find('Times/' + t)) for t in ('LastModificationTime', 'LastAccessTime')])
    for a, tag, val in (('enabled', 'AutoType/Enabled', False), ('sequence', 'AutoType/DefaultSequence', 's'), ('window', 'AutoType/Association/Window', 'w')):
        add('e0.autotype_' + a, lambda kp, a=a, val=val: setattr(entry_of(kp, 'e0'), 'autotype_' + a, val), lambda m, tag=tag: m.free(m.e('e0').find(tag)))
    add('property', lambda kp: entry_of(kp, 'e0').set_custom_property('k', 'new'), lambda m: m.free(m.string(m.e('e0'), 'k')))
    add('new property', lambda kp: entry_of(kp, 'e0').set_custom_property('fresh', 'new', protect=True), lambda m: None)
    add('delete property', lambda kp: entry_of(kp, 'e0').delete_custom_property('q'), lambda m: m.drop(m.string(m.e('e0'), 'q')))
    for a, tag in (('name', 'Name'), ('notes', 'Notes'), ('icon', 'IconID')):
        add('g1.' + a, lambda kp, a=a: setattr(group_of(kp, 'g1'), a, '7'), lambda m, tag=tag: m.free(m.e('g1', 'Group').find(tag)))
    for a, tag, val in (('database_name', 'DatabaseName', 'x'), ('database_description', 'DatabaseDescription', 'x'), ('default_username', 'DefaultUserName', 'x'), ('credchange_required_days', 'MasterKeyChangeForce', 3),
                        ('credchange_recommended_days', 'MasterKeyChangeRec', 3), ('credchange_date', 'MasterKeyChanged', C.T0.replace(year=2030)), ('password', 'MasterKeyChanged', 'pw')):
        add('kp.' + a, lambda kp, a=a, val=val: setattr(kp, a, val), lambda m, tag=tag: m.free(m.d.find('Meta/' + tag)))
    add('add entry', lambda kp: kp.add_entry(group_of(kp, 'g1'), 'n', 'n', 'n', tags=['n'], icon='1', otp='x'), lambda m: None)
    add('add entry to root', lambda kp: kp.add_entry(kp.root_group, 'n', 'n', 'n'), lambda m: None)
    add('add group', lambda kp: kp.add_group(group_of(kp, 'g1'), 'n', icon='1', notes='n'), lambda m: None)
    add('delete entry', lambda kp: kp.delete_entry(entry_of(kp, 'e1')), lambda m: m.drop(m.e('e1')))
    add('delete group', lambda kp: kp.delete_group(group_of(kp, 'g2')), lambda m: m.drop(m.e('g2', 'Group')))

    def empty(m):
        g = m.e('g1', 'Group')
        for x in list(g):
            if x.tag in ('Entry', 'Group'):
                g.remove(x)
    add('empty group', lambda kp: kp.empty_group(group_of(kp, 'g1')), empty)
    add('move entry', lambda kp: kp.move_entry(entry_of(kp, 'e0'), group_of(kp, 'g2')), lambda m: m.move(m.e('e0'), m.e('g2', 'Group')))
    add('move group', lambda kp: kp.move_group(group_of(kp, 'g2'), kp.root_group), lambda m: m.move(m.e('g2', 'Group'), m.e('root', 'Group')))
    add('trash entry', lambda kp: kp.trash_entry(entry_of(kp, 'e1')), lambda m: m.move(m.e('e1'), m.e('rb', 'Group')))
    add('trash group', lambda kp: kp.trash_group(group_of(kp, 'g1')), lambda m: m.move(m.e('g1', 'Group'), m.e('rb', 'Group')))

    def reindex(m):
        g, e = m.e('root', 'Group'), m.e('e2')
        first = [x for x in g if x.tag == 'Entry'][0]
        if first is not e:
            g.remove(e)
            g.insert(list(g).index(first), e)
    add('reindex', lambda kp: entry_of(kp, 'e2').reindex(0), reindex)

    def snapshot(label):
        def f(m):
            e = m.e(label)
            c = copy.deepcopy(e)
            h = c.find('History')
            if h is not None:
                c.remove(h)
                e.find('History').append(c)
            else:
                e.append(el('History', None, c))
        return f
    add('history', lambda kp: entry_of(kp, 'e0').save_history(), snapshot('e0'))
    add('first history', lambda kp: entry_of(kp, 'e1').save_history(), snapshot('e1'))
    add('delete history', lambda kp: entry_of(kp, 'e0').delete_history(entry_of(kp, 'e0').history[1]), lambda m: m.drop(m.e('e0').findall('History/Entry')[1]))
    add('attach', lambda kp: entry_of(kp, 'e2').add_attachment(2, 'new'), lambda m: None)

    def detach(kp):
        e = entry_of(kp, 'e0')
        e.delete_attachment([a for a in e.attachments if a.filename == 'f'][0])
    add('detach', detach, lambda m: m.drop([b for b in m.e('e0').findall('Binary') if b.findtext('Key') == 'f'][0]))

    def rename(kp):
        [a for a in entry_of(kp, 'e0').attachments if a.filename == 'g'][0].filename = 'other'
    add('attachment name', rename, lambda m: m.free([b for b in m.e('e0').findall('Binary') if b.findtext('Key') == 'g'][0].find('Key')))

    def addbin(m):
        if m.bins is not None:
            m.bins.append((0, b'four'))
    add('add binary', lambda kp: kp.add_binary(b'four', protected=False), addbin)

    def delbin(i):
        def f(m):
            if m.bins is not None:
                m.bins.pop(i)
            else:
                bs = m.d.find('Meta/Binaries')
                for b in list(bs):
                    if isinstance(b.tag, str) and b.tag == 'Binary':
                        n = int(b.get('ID'))
                        if n == i:
                            bs.remove(b)
                        elif n > i:
                            b.set('ID', str(n - 1))
            for e in list(m.d.find('Root').iter('Entry')):
                for b in e.findall('Binary'):
                    x = b.find('Value')
                    n = int(x.get('Ref'))
                    if n == i:
                        e.remove(b)
                    elif n > i:
                        x.set('Ref', str(n - 1))
        return f
    for i in (0, 1, 2):
        add('delete binary %d' % i, lambda kp, i=i: kp.delete_binary(i), delbin(i))
    add('reload', lambda kp: None, lambda m: None)
    return out


EDITS = edits()
CFGS = {3: Cfg(3), 4: Cfg(4)}


def settle(case_v, base, steps, what):
    """Write `base`, open, apply the edits, save; the document is what the model gives, in two generations"""
    cfg = CFGS[case_v]
    s = io.BytesIO(cfg.write(base))
    kp = PyKeePass(s, 'pw')
    m = M(copy.deepcopy(base), case_v)
    for n in steps:
        name, real, model = EDITS[n]
        if name == 'reload':
            b = io.BytesIO()
            kp.save(b)
            kp = PyKeePass(io.BytesIO(b.getvalue()), 'pw')
        real(kp)
        model(m)
    want = canon(m.d, m.ex, new=False)
    for gen in (1, 2):
        b = io.BytesIO()
        kp.save(b)
        db, d = read(b.getvalue())
        got = canon(d, m.ex, new=False)
        expect(got == want, lambda: '%s, generation %d: %s' % (what, gen, first_diff(got, want)), 'document')
        if m.bins is not None:
            eq(db.binaries, m.bins, what + ': binaries and their flags')
        kp = PyKeePass(io.BytesIO(b.getvalue()), 'pw')


def position(case):
    """Foreign content of one kind at one position, no edit or one"""
    v, order, kind, at, steps = case
    base = doc(v, order)
    els = [x for x in base.iter()]
    inject(els[at], kind, at)
    settle(v, base, steps, '%s in %s (%d)' % (kind, els[at].tag, at))
    return kind


def everywhere(case):
    """Foreign content of one kind at all positions, edits"""
    v, order, kind, steps = case
    base = doc(v, order)
    if kind:
        for n, x in enumerate(list(base.iter())):
            inject(x, kind, n)
    settle(v, base, steps, '%s everywhere, %s' % (kind, [EDITS[i][0] for i in steps]))
    return EDITS[steps[-1]][0]


SEEDS = {3: {4, 5, 7, 8, 9}, 4: {4, 7}}


def headers(case):
    """Header items and key-derivation parameters survive"""
    v, cipher, comp, kdf, stream, extra, kextra, end, steps = case
    k = R.cheap_kdf(kdf, 'h')
    if kdf == 'aeskdf':
        k['R'] = 3
    else:
        k['I'], k['M'] = 2, 16 * 1024
    k['extra'] = list(kextra)
    db = R.RefDB(doc(v), version=v, cipher=cipher, compression=comp, kdf=k, stream=stream, extra=extra, binaries=BINS if v == 4 else ())
    db.end_data = end
    data = R.encode(db, R.transform(db, COMP))
    was = R.decode(data, comp=COMP)
    kp = PyKeePass(io.BytesIO(data), 'pw')
    for n in steps:
        EDITS[n][1](kp)
    b = io.BytesIO()
    kp.save(b)
    now = R.decode(b.getvalue(), comp=COMP)
    eq((now.version, now.minor), (was.version, was.minor), 'version')
    eq([(t, d) for t, d in now.items if t not in SEEDS[v] and t != 11], [(t, d) for t, d in was.items if t not in SEEDS[v] and t != 11], 'header items')
    eq([t for t, d in now.items], [t for t, d in was.items], 'order of header items')
    eq({x: y for x, y in now.kdf.items() if x != 'S'}, {x: y for x, y in was.kdf.items() if x != 'S'}, 'key derivation parameters')
    eq(now.end_data, was.end_data, 'end of header')
    eq((now.cipher, now.compression, now.stream), (cipher, comp, stream), 'cipher, compression, inner stream')
    return '%s %s' % (cipher, kdf)


def outside(xml):
    """Comments and processing instructions outside the root element"""
    out, depth = [], [0, False]
    p = expat.ParserCreate()

    def start(*a):
        depth[0] += 1
        depth[1] = True

    def end(*a):
        depth[0] -= 1

    def note(*a):
        if not depth[0]:
            out.append(('after' if depth[1] else 'before',) + a)
    p.StartElementHandler, p.EndElementHandler, p.CommentHandler, p.ProcessingInstructionHandler = start, end, note, note
    p.Parse(xml, True)
    return sorted(out)      # their order is not judged: copying a document reverses those after the root (lxml)


PIECES = ('', '<!-- c -->', '<?app data?>', '<!--a--><!--b-->\n<?p q?>')


def prolog(case):
    """Comments and processing instructions around the root element"""
    v, a, b, steps = case
    data = CFGS[v].write(doc(v), PIECES[a], PIECES[b])
    want = outside(R.decode(data, comp=COMP).xml_bytes)
    kp = PyKeePass(io.BytesIO(data), 'pw')
    for gen in (1, 2):
        for n in steps:
            EDITS[n][1](kp)
        b = io.BytesIO()
        kp.save(b)
        eq(outside(R.decode(b.getvalue(), comp=COMP).xml_bytes), want, 'comments around the document, generation %d' % gen)
        kp = PyKeePass(io.BytesIO(b.getvalue()), 'pw')
        steps = ()
    return 'kept'


RAW = (b'\xff', b'\xc3\x28 bytes \x80', bytes(range(256)), b'\xed\xa0\x80', 'abc', 'YWJjZ', 'x')


def unreadable(case):
    """A protected value that is no text: kept as it was, as bytes or as stored; nothing else suffers"""
    v, at, k, steps = case
    base = doc(v)
    els = [x for x in R.iter_protected(base) if x.tag == 'Value']
    label = els[at].get('x')
    data = CFGS[v].write(base, raw={label: RAW[k]})
    db = R.decode(data, comp=COMP, lenient=True)

    def values(db):
        c = R.stream_cipher(db.stream, db.stream_key)
        out = {}
        for x in R.iter_protected(ET.fromstring(db.xml_bytes)):
            if x.text:
                try:
                    d = base64.b64decode(x.text, validate=True)
                except Exception:
                    out[x.get('x')] = x.text
                    continue
                out[x.get('x')] = c.decrypt(d)
        return out
    was = values(db)
    stored = [x.text for x in ET.fromstring(db.xml_bytes).iter() if x.get('x') == label][0]
    kp = PyKeePass(io.BytesIO(data), 'pw')
    for n in steps:
        EDITS[n][1](kp)
    for gen in (1, 2):
        b = io.BytesIO()
        kp.save(b)
        now = values(R.decode(b.getvalue(), comp=COMP, lenient=True))
        for l in was:
            if l == label:
                expect(now.get(l) in (was[l], stored.encode(), stored), lambda: 'protected value that is no text: %r, stored as %r, became %r' % (was[l], stored, now.get(l)), 'unreadable value')
            else:
                eq(now.get(l), was[l], 'another protected value, generation %d' % gen)
        kp = PyKeePass(io.BytesIO(b.getvalue()), 'pw')
    return 'kept'


REPLAY = dict(position=position, everywhere=everywhere, headers=headers, prolog=prolog, unreadable=unreadable)


def main(chk):
    q = chk.quick
    chk.assumptions += ['an edit may replace or rewrite the element it sets (and what hangs on exactly that element); everything else is compared, formatting whitespace between elements excepted',
                        'seeds, initialisation vectors and stream keys may be renewed by a save']
    n = len(list(doc(3).iter())), len(list(doc(4).iter()))
    names = [e[0] for e in EDITS]
    some = [names.index(x) for x in ('nothing', 'e0.title', 'history', 'move group', 'delete binary 0')]
    chk.run_cases('position', [(v, o, k, at, (s,)) for v in (3, 4) for o in (('normal',) if q else ('normal', 'reversed')) for k in KINDS for at in range(n[v - 3]) for s in (some[:1] if q else some) if not q or v == 4 or k in KINDS[2::4]],
                  position, 'kind of foreign content x every element of the document x edit')
    N = range(len(EDITS))
    chk.run_cases('everywhere', [(v, o, k, (a,)) for v in (3, 4) for o in ('normal', 'reversed') for k in (None,) + KINDS for a in N if not q or o == 'normal' or k in (None, 'tree', 'comment')], everywhere, 'kind of foreign content everywhere x edit')
    first = [i for i in N if names[i].startswith(('delete', 'move', 'trash', 'history', 'first', 'detach', 'reindex', 'empty', 'reload', 'e0.password', 'kp.password', 'add binary'))]
    pk = ('tree',) if q else (None, 'tree', 'attributes', 'comment', 'mixed', 'twins')
    chk.run_cases('pairs', [(v, o, k, (a, b)) for v in (3, 4) for o in (('normal',) if q else ('normal', 'reversed')) for k in pk for a in N for b in N if compatible(a, b) and (not q or v == 4 and a in first)], everywhere, 'ordered pairs of edits')
    names = [e[0] for e in EDITS]
    chk.run_cases('prolog', [(v, a, b, s) for v in (3, 4) for a in range(len(PIECES)) for b in range(len(PIECES)) for s in ((), (names.index('e0.title'),), (names.index('add entry'),))], prolog,
                  'comments and processing instructions before and after the root element x edit')
    np = {v: len([x for x in R.iter_protected(doc(v)) if x.tag == 'Value']) for v in (3, 4)}
    chk.run_cases('unreadable', [(v, at, k, s) for v in (3, 4) for at in range(np[v]) for k in range(len(RAW)) for s in ((), (names.index('e2.title'),), (names.index('history'),))], unreadable,
                  'protected values that are not text x position x edit')
    vd = {4: 1, 5: 2 ** 40, 8: True, 0xc: -5, 0xd: -2 ** 40, 0x18: 'text é', 0x42: b'\x00\xff'}
    pub = R.vdict([(t, 'k%d' % t, x) for t, x in vd.items()])
    hs = []
    for v in (3, 4):
        for cipher in ('aes256', 'chacha20', 'twofish'):
            for comp in (True, False):
                for kdf in (('aeskdf',) if v == 3 else ('aeskdf', 'argon2', 'argon2id')):
                    for stream in ('salsa20', 'chacha20', 'none'):
                        for extra in (((), ((1, b'a comment \xff'),)) if v == 3 else ((), ((1, b'a comment'),), ((12, pub),), ((12, b''), (1, b'x' * 70000)))):
                            for kx in (((),) if v == 3 else ((), tuple((t, 'x%d' % t, x) for t, x in vd.items()))):
                                for end in (b'\r\n\r\n', b'', b'other end'):
                                    if q and (end and kx and extra or cipher == 'twofish' and (stream != 'salsa20' or end)):
                                        continue
                                    for s in ((0,), (names.index('e0.title'), names.index('add binary'), names.index('kp.password'))):
                                        hs.append((v, cipher, comp, kdf, stream, list(extra), kx, end, s))
    chk.run_cases('headers', hs, headers, 'header items x key-derivation parameters x settings x edits')


def compatible(a, b):
    """The second edit still finds its target"""
    x, y = EDITS[a][0], EDITS[b][0]
    if x in ('delete entry', 'empty group') and y in ('delete entry', 'trash entry', 'first history', 'touch', 'delete group', 'move entry', 'move group'):
        return False
    if (x, y) == ('move entry', 'reindex'):
        return False
    if x == 'delete group' and y in ('delete group', 'move group', 'move entry'):
        return False
    if x == y and x in ('add entry', 'add entry to root', 'delete property', 'delete history', 'detach', 'attachment name', 'delete binary 2', 'trash entry', 'trash group'):
        return False
    if x.startswith('delete binary') and (y.startswith('delete binary 2') or y in ('detach', 'attachment name', 'attach')) or x in ('detach', 'attachment name') and y in ('detach', 'attachment name'):
        return False
    if x == 'move entry' and y == 'delete group' or x == 'trash group' and y in ('trash group', 'trash entry') or x == 'trash entry' and y == 'first history':
        return True if y == 'first history' or x == 'move entry' else y != 'trash group'
    return True
