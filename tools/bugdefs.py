"""Definitions of the planted bugs, see bugs.py.  Written from the text of the properties and the code."""

PREAMBLE = '''import atexit, os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
import base64, hashlib, io, logging, threading, uuid
from datetime import datetime, timedelta, timezone
from lxml import etree
from lxml.builder import E
from pykeepass import PyKeePass, create_database
import pykeepass
logging.disable(logging.CRITICAL)
T = tempfile.mkdtemp(prefix='demo.')
atexit.register(shutil.rmtree, T, True)


def path(name):
    return os.path.join(T, name)


def copy(name, to=None):
    to = path(to or name)
    shutil.copy(os.path.join('tests', name), to)
    return to


def db3(to=None):
    return PyKeePass(copy('test3.kdbx', to), 'password', copy('test3.key'))


def db4(to=None):
    return PyKeePass(copy('test4.kdbx', to), 'password', copy('test4.key'))


def again(kp):
    kp.save()
    kp.reload()
    return kp


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


'''

BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


P, EN, GR, BA, AT, XP = 'pykeepass.py', 'entry.py', 'group.py', 'baseelement.py', 'attachment.py', 'xpath.py'
CO, K3, K4, TF = ['kdbx_parsing/' + n for n in ('common.py', 'kdbx3.py', 'kdbx4.py', 'twofish.py')]

# ------------------------------------------------------------------ C01
bug('c01-block-tail', 'C01', (CO, 'while i < len(payload_data):', 'while i < len(payload_data) - 1:'),
    'a payload whose length is 1 modulo 2**20',
    'the last byte of the payload is not written, the database cannot be read again', '''
kp = PyKeePass(copy('test4_chacha20_uncompressed.kdbx'), 'password')
import random
def payload_length():
    s = io.BytesIO(); kp.save(s); b = s.getvalue()
    n = len(kp.kdbx.header.data) + 64; total = 0
    while True:
        l = int.from_bytes(b[n + 32:n + 36], 'little'); total += l; n += 36 + l
        if not l: return total
size = 2 ** 20 + 1
base = payload_length()
data = bytes(size - base - 6)
kp.add_binary(data)
for i in range(4):
    d = size - payload_length()
    if d == 0: break
    kp.delete_binary(len(kp.binaries) - 1)
    data = bytes(len(data) + d)
    kp.add_binary(data)
kp.save(path('out.kdbx'))
kp2 = PyKeePass(path('out.kdbx'), 'password')
assert kp2.xml() == kp.xml() and kp2.binaries == kp.binaries
''')

bug('c01-tab', 'C01', (CO, "'[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000", "'[^\\u0020-\\uD7FF\\u000A\\u000D\\uE000"),
    'a tab in a protected value', 'tabs disappear from protected values when the database is opened', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'a\\tb')
again(kp)
assert kp.find_entries(title='t', first=True).password == 'a\\tb'
''')

bug('c01-astral', 'C01', (CO, "\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+'", "\\uE000-\\uFFFD\\U00010000-\\U0001FFFF]+'"),
    'a protected value with a character of a plane above 1', 'such characters are lost on reopening', '''
kp = db3()
s = 'a\\U00020bb7b'
e = kp.add_entry(kp.root_group, 't', 'u', s)
again(kp)
assert kp.find_entries(title='t', first=True).password == s
''')

# ------------------------------------------------------------------ C02
bug('c02-new-target', 'C02', (P, '''        else:
            # save to temporary file to prevent database clobbering
''', '''        elif not os.path.exists(filename):
            # nothing to clobber
            KDBX.build_file(
                self.kdbx,
                filename,
                password=self.password,
                keyfile=self.keyfile,
                transformed_key=transformed_key,
                decrypt=True
            )
        else:
            # save to temporary file to prevent database clobbering
'''), 'a failing save to a path where there is no file yet', 'half a database stays behind at the target', '''
kp = db4()
kp.keyfile = path('missing.key')
assert raises(kp.save, path('new.kdbx'))
assert not os.path.exists(path('new.kdbx'))
''')

# ------------------------------------------------------------------ C03
bug('c03-strip', 'C03', (CO, "hashlib.sha256(password.encode('utf-8'))", "hashlib.sha256(password.rstrip('\\r\\n').encode('utf-8'))"),
    'passwords that differ only in trailing line ends', 'a database opens with a password that is not its password', '''
kp = db4()
kp.password = 'secret\\n'
kp.save()
assert raises(PyKeePass, kp.filename, 'secret', kp.keyfile)
''')

bug('c03-normalise', 'C03', [(CO, "import io\n", "import io\nimport unicodedata\n"),
     (CO, "hashlib.sha256(password.encode('utf-8'))", "hashlib.sha256(unicodedata.normalize('NFC', password).encode('utf-8'))")],
    'passwords with combining characters', 'a database opens with a different password', '''
kp = db3()
kp.password = 'e\\u0301'
kp.save()
assert raises(PyKeePass, kp.filename, '\\u00e9', kp.keyfile)
''')

bug('c03-keyfile-cache', 'C03', (CO, '''            with open(keyfile, 'rb') as f:
                keyfile_bytes = f.read()
''', '''            if keyfile not in keyfiles:
                with open(keyfile, 'rb') as f:
                    keyfiles[keyfile] = f.read()
            keyfile_bytes = keyfiles[keyfile]
''') and [(CO, '''            with open(keyfile, 'rb') as f:
                keyfile_bytes = f.read()
''', '''            if keyfile not in keyfiles:
                with open(keyfile, 'rb') as f:
                    keyfiles[keyfile] = f.read()
            keyfile_bytes = keyfiles[keyfile]
'''), (CO, 'def compute_key_composite(', '# key files are read more than once\nkeyfiles = {}\n\n\ndef compute_key_composite(')],
    'a key file that is replaced by another one under the same name in one process',
    'the database still opens with the wrong key file', '''
kp = db4()
shutil.copy('tests/test3.key', path('test4.key'))
assert raises(PyKeePass, kp.filename, 'password', path('test4.key'))
''')

# ------------------------------------------------------------------ C04
bug('c04-index', 'C04', (K3, '''        lambda this: this._index,
        this
    ),''', '''        lambda this: min(this._index, 1),
        this
    ),'''),
    'a KDBX3 database of more than two blocks', 'the block number is not checked (and written wrong) from the third block on', '''
from pykeepass.kdbx_parsing import kdbx3
from construct import Container, Struct
blocks = [Container(block_data=c * 10) for c in (b'a', b'b', b'c', b'd')] + [Container(block_data=b'')]
data = kdbx3.PayloadBlocks.build(blocks)
n = 4 + 32 + 4 + 10
swapped = data[:2 * n] + data[3 * n:4 * n] + data[2 * n:3 * n] + data[4 * n:]
assert raises(kdbx3.PayloadBlocks.parse, swapped)
''')

bug('c04-last-block', 'C04', [(K4, '''        Checksum(
            Bytes(32),
            compute_payload_block_hash,
            this,
            # exception=PayloadChecksumError
        )
    )
)''', '''        If(len_(this.block_data) > 0, Checksum(
            Bytes(32),
            compute_payload_block_hash,
            this,
            # exception=PayloadChecksumError
        ))
    )
)'''), (K4, "    Tell,\n    this,\n", "    Tell,\n    len_,\n    this,\n")],
    'a file cut at a block boundary and ended with an empty block',
    'the truncated content is read as if it were complete', '''
kp = PyKeePass(copy('test4_chacha20_uncompressed.kdbx'), 'password')
s = io.BytesIO(); kp.save(s); b = bytearray(s.getvalue())
# hash of the final, empty block
b[-36] ^= 1
assert raises(PyKeePass, io.BytesIO(bytes(b)), 'password')
''')


# ------------------------------------------------------------------ C05
bug('c05-argon-version', 'C05', (K4, '''            parallelism=kdf_parameters['P'].value,
            version=kdf_parameters['V'].value
''', '''            parallelism=kdf_parameters['P'].value
'''), 'a database whose key is derived with version 0x10 of Argon2', 'such a database cannot be opened', '''
import argon2
from unittest import mock
seen = []
real = argon2.low_level.hash_secret_raw
with mock.patch('argon2.low_level.hash_secret_raw', lambda **k: seen.append(k.get('version', 19)) or real(**k)):
    import pykeepass.kdbx_parsing.kdbx4 as k4
    from construct import Container
    v = lambda x: Container(value=x)
    d = {'$UUID': v(k4.kdf_uuids['argon2']), 'S': v(b's' * 32), 'I': v(1), 'M': v(65536), 'P': v(1), 'V': v(16)}
    top = Container(password='p', keyfile=None, transformed_key=None)
    mid = Container(header=Container(value=Container(dynamic_header=Container(kdf_parameters=Container(data=Container(dict=d))))))
    mid._ = top
    c = Container(); c._ = mid
    got = k4.compute_transformed(c)
want = real(secret=hashlib.sha256(hashlib.sha256(b'p').digest()).digest(), salt=b's' * 32, hash_len=32,
            type=argon2.low_level.Type.D, time_cost=1, memory_cost=64, parallelism=1, version=16)
assert got == want
''')

bug('c05-block-number', 'C05', (K4, '''            struct.pack('<Q', this._index) +
            hashlib.sha512(''', '''            struct.pack('<Q', this._index & 0xff) +
            hashlib.sha512('''),
    'a file of more than 256 blocks, as written by programs with small blocks', 'the file is rejected', '''
import hmac, struct
kp = PyKeePass(copy('test4_chacha20_uncompressed.kdbx'), 'password')
s = io.BytesIO(); kp.save(s); b = s.getvalue()
n = len(kp.kdbx.header.data) + 64
head, data = b[:n], b''
while True:
    l = int.from_bytes(b[n + 32:n + 36], 'little'); data += b[n + 36:n + 36 + l]; n += 36 + l
    if not l: break
h = kp.kdbx.header.value.dynamic_header
base = hashlib.sha512(h.master_seed.data + kp.transformed_key + b'\\1').digest()
out = head
size = len(data) // 300
parts = [data[i:i + size] for i in range(0, len(data), size)] + [b'']
for i, p in enumerate(parts):
    key = hashlib.sha512(struct.pack('<Q', i) + base).digest()
    out += hmac.new(key, struct.pack('<QI', i, len(p)) + p, hashlib.sha256).digest() + struct.pack('<I', len(p)) + p
kp2 = PyKeePass(io.BytesIO(out), 'password')
assert kp2.xml() == kp.xml()
''')

# ------------------------------------------------------------------ C06
bug('c06-path', 'C06', (GR, '''        while p is not None and not p.is_root_group:
''', '''        while p is not None and p != self._kp.root_group and p.parentgroup != self:
''') and (EN, '''        path = [self.title]
        while p is not None and not p.is_root_group:
''', '''        path = [self.title]
        while p is not None and p.name != self._kp.root_group.name:
'''), 'a group that has the same name as the root group', 'the path of entries below it is cut', '''
kp = db4()
a = kp.add_group(kp.root_group, 'a')
g = kp.add_group(a, kp.root_group.name)
e = kp.add_entry(g, 't', 'u', 'p')
assert e.path == ['a', kp.root_group.name, 't']
''')

# ------------------------------------------------------------------ C07
bug('c07-flags', 'C07', (XP, '''        'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',''', '''        'notes': '/Notes[re:test(text(), "{}")]/..','''),
    'a case insensitive regex search for group notes', 'flags are ignored', '''
kp = db4()
g = kp.add_group(kp.root_group, 'g', notes='HeLLo')
assert kp.find_groups(notes='hello', regex=True, flags='i') == [g]
''')

bug('c07-first', 'C07', (P, '''        res = []
        for e in elements:
            if cast:''', '''        res = []
        # the document order is not guaranteed for unions
        elements = sorted(elements, key=lambda e: len(list(e.iterancestors()))) if first else elements
        for e in elements:
            if cast:'''), 'two matches, the first of which lies deeper in the tree',
    'first=True does not return the first element of the list', '''
kp = db4()
a = kp.add_group(kp.root_group, 'a')
b = kp.add_group(a, 'b')
e = kp.add_entry(b, 'twice', 'u', 'p')
f = kp.add_entry(a, 'twice', 'u2', 'p')
g = kp.find_entries(title='twice')
assert len(g) == 2 and kp.find_entries(title='twice', first=True) == g[0]
a2 = kp.add_group(kp.root_group, 'a2')
h = kp.add_entry(a2, 'twice', 'u', 'p')
kp.delete_entry(f)
g = kp.find_entries(title='twice')
assert len(g) == 2 and kp.find_entries(title='twice', first=True) == g[0]
''')

bug('c07-window', 'C07', (XP, '''        'autotype_window': '/AutoType/Association/Window[text()="{}"]/../../..',''',
    '''        'autotype_window': '/AutoType/Association[1]/Window[text()="{}"]/../../..','''),
    'an entry with several autotype associations', 'an entry is not found by its second window', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
a = e._element.find('AutoType')
a.append(E.Association(E.Window('second'), E.KeystrokeSequence('')))
assert kp.find_entries(autotype_window='second') == [e]
''')

# ------------------------------------------------------------------ C08
bug('c08-history-refs', 'C08', (P, """            '//Binary/Value[@Ref > "{}"]/..'.format(id),""", """            '//Group/Entry/Binary/Value[@Ref > "{}"]/..'.format(id),"""),
    'a history entry with an attachment and the deletion of an earlier binary',
    'the attachment of the history entry refers to another binary afterwards', '''
kp = db4()
a = kp.add_binary(b'a'); b = kp.add_binary(b'b')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.add_attachment(b, 'nm')
e.save_history()
kp.delete_binary(a)
assert [x.data for x in e.history[0].attachments] == [b'b']
''')

bug('c08-string-compare', 'C08', (P, '''            reference.id = reference.id - 1
''', '''            if reference.entry.group is not None:
                reference.id = reference.id - 1
''') and (P, '''        for reference in binaries_gt:
            reference.id = reference.id - 1
''', '''        for reference in binaries_gt:
            if str(reference.id) > str(id):
                reference.id = reference.id - 1
'''), 'more than ten binaries', 'references to binary 10 and above are not renumbered when a binary below is deleted', '''
kp = db4()
n = len(kp.binaries)
ids = [kp.add_binary(b'%d' % i) for i in range(12)]
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for i in ids: e.add_attachment(i, 'f%d' % i)
before = {a.filename: a.data for a in e.attachments}
kp.delete_binary(ids[3])
after = {a.filename: a.data for a in e.attachments}
assert len(after) == 11 and all(before[f] == after[f] for f in after)
''')

bug('c08-dedupe', 'C08', (P, '''            c = Container(type='binary', data=data)
            self.payload.inner_header.binary.append(c)
''', '''            c = Container(type='binary', data=data)
            for id, other in enumerate(self.payload.inner_header.binary):
                if other.data[1:] == data[1:]:
                    return id
            self.payload.inner_header.binary.append(c)
'''), 'the same data added twice, and one of the two deleted', 'the attachment of the other one disappears as well', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
f = kp.add_entry(kp.root_group, 't2', 'u', 'p')
a = kp.add_binary(b'same'); e.add_attachment(a, 'a')
b = kp.add_binary(b'same', protected=False); f.add_attachment(b, 'b')
kp.delete_binary(a)
assert [x.data for x in f.attachments] == [b'same']
''')

# ------------------------------------------------------------------ C09
bug('c09-delete-equal', 'C09', (EN, "self._element.find('History').remove(history_entry._element)",
    "self._element.find('History').remove(self.history[self.history.index(history_entry)]._element)"),
    'two history entries with the same modification time', 'delete_history removes another snapshot', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.save_history(); e.title = 't2'; e.save_history()
e.delete_history(e.history[1])
assert [h.title for h in e.history] == ['t']
''')

bug('c09-binary', 'C09', (EN, '''        archive = deepcopy(self._element)
''', '''        archive = Element('Entry')
        archive.extend(deepcopy(child) for child in self._element if child.tag != 'AutoType')
''') and (EN, '''        archive = deepcopy(self._element)
        hist = archive.find('History')
        if hist is not None:
            archive.remove(hist)
''', '''        hist = self._element.find('History')
        archive = Element('Entry')
        archive.extend([deepcopy(c) if len(c) else E(c.tag, c.text or '') for c in self._element if c is not hist])
        if hist is not None:
'''), 'an entry with an attribute on a simple child element', 'the snapshot loses the attribute', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
x = etree.SubElement(e._element, 'Quality'); x.set('Check', 'False'); x.text = '1'
e.save_history()
h = e.history[0]._element.find('Quality')
assert h.get('Check') == 'False'
''')

bug('c09-skip', 'C09', (EN, '''            archive.remove(hist)
            self._element.find('History').append(archive)
''', '''            archive.remove(hist)
            # nothing to archive if nothing was modified
            if self.history and self.history[-1].mtime == self.mtime and self.history[-1].title == self.title:
                return
            self._element.find('History').append(archive)
'''), 'two snapshots within the same modification time', 'the second snapshot is not taken', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.save_history(); e.password = 'new'; e.save_history()
assert [h.password for h in e.history] == ['p', 'new']
''')

# ------------------------------------------------------------------ C10
bug('c10-tags', 'C10', (EN, "v = sep.join(value if isinstance(value, list) else [value])", "v = sep.join(dict.fromkeys(map(str.strip, value)) if isinstance(value, list) else [value])"),
    'tags with surrounding blanks', 'the blanks are dropped', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.tags = [' a', 'b ']
assert e.tags == [' a', 'b ']
''')

bug('c10-expires', 'C10', (BA, "d.text = 'True' if value else 'False'", '''d.text = 'True' if value else 'False'
        if value and self.expiry_time < datetime.now(timezone.utc):
            self.expiry_time = datetime.now(timezone.utc)'''),
    'setting expires of an entry that expired in the past', 'the expiry time is changed', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
t = datetime(2001, 2, 3, tzinfo=timezone.utc)
e.expiry_time = t
e.expires = True
assert e.expiry_time == t
''')

bug('c10-reserved', 'C10', (EN, '''        if key not in self._get_string_field_keys(exclude_reserved=True):
            raise''', '''        if key.lower() not in map(str.lower, self._get_string_field_keys(exclude_reserved=True)):
            raise''') and (EN, '''            return [x for x in results if x not in reserved_keys]
''', '''            return [x for x in results if x.title() not in reserved_keys]
'''), 'a custom property whose name equals a reserved one but for case', 'it is not listed and cannot be deleted', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.set_custom_property('title', 'x')
assert e.custom_properties == {'title': 'x'}
''')

# ------------------------------------------------------------------ C11
bug('c11-round', 'C11', (P, "struct.pack('<Q', diff_seconds)", "struct.pack('<Q', diff_seconds & 0xfffffffff)"),
    'a time beyond the year 2178', 'the time wraps around', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
t = datetime(2999, 12, 28, 22, 59, 59, tzinfo=timezone.utc)
e.expiry_time = t
assert e.expiry_time == t
''')

# ------------------------------------------------------------------ C12
bug('c12-history', 'C12', (P, "ref_entry = self.find_entries(first=True, **{search_in: search_value})", "ref_entry = self.find_entries(first=True, history=True, **{search_in: search_value})"),
    'a reference by a title that only an old version of an entry had', 'the reference resolves to the old version', '''
kp = db4()
e = kp.add_entry(kp.root_group, 'before', 'u', 'p')
e.save_history(); e.title = 'after'
f = kp.add_entry(kp.root_group, 'f', '{REF:P@T:before}', 'x')
assert f.deref('username') is None
''')

bug('c12-lower', 'C12', (P, "references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))", "references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^{}]+)})', value))"),
    'a reference by a value that contains an opening brace', 'the reference is not resolved', '''
kp = db4()
e = kp.add_entry(kp.root_group, 'a{b', 'u', 'pw')
f = kp.add_entry(kp.root_group, 'f', '{REF:P@T:a{b}', 'x')
assert f.deref('username') == 'pw'
''')

# ------------------------------------------------------------------ C13
bug('c13-nested', 'C13', (P, "return self.find_groups(uuid=recyclebin_uuid, first=True)", "return self.find_groups(uuid=recyclebin_uuid, group=self.root_group, recursive=False, first=True)"),
    'a recycle bin that was moved into another group', 'a second recycle bin is created', '''
kp = db4()
e = kp.add_entry(kp.root_group, 'e', 'u', 'p')
f = kp.add_entry(kp.root_group, 'f', 'u', 'p')
kp.trash_entry(e)
b = e.group
g = kp.add_group(kp.root_group, 'g')
kp.move_group(b, g)
kp.trash_entry(f)
assert f.group == b
''')

bug('c13-name', 'C13', (P, '''        existing_group = self.recyclebin_group
        if existing_group is not None:''', '''        existing_group = self.recyclebin_group or self.find_groups(name='Recycle Bin', first=True)
        if existing_group is not None:'''),
    'no recycle bin, but a group of that name', 'elements are moved to a group that is not the recycle bin', '''
kp = db4()
if kp.recyclebin_group is not None: kp.delete_group(kp.recyclebin_group)
g = kp.add_group(kp.root_group, 'g')
mine = kp.add_group(g, 'Recycle Bin')
e = kp.add_entry(kp.root_group, 'e', 'u', 'p')
kp.trash_entry(e)
assert e.group == kp.recyclebin_group
''')

# ------------------------------------------------------------------ C14
bug('c14-trash', 'C14', (P, '''        if not self._can_be_moved_to_recyclebin(group):
            raise UnableToSendToRecycleBin
        recyclebin_group = self._create_or_get_recyclebin_group()
''', '''        recyclebin_group = self._create_or_get_recyclebin_group()
        if not self._can_be_moved_to_recyclebin(group):
            raise UnableToSendToRecycleBin
'''), 'the root group is sent to the recycle bin of a database without one', 'the refused operation creates a recycle bin', '''
kp = db4()
if kp.recyclebin_group is not None: kp.delete_group(kp.recyclebin_group)
n = len(kp.groups)
assert raises(kp.trash_group, kp.root_group)
assert len(kp.groups) == n
''')

bug('c14-binary', 'C14', (P, '''            data = b'\\x01' + data if protected else b'\\x00' + data
            # add binary element to inner header
            c = Container(type='binary', data=data)
            self.payload.inner_header.binary.append(c)
''', '''            # add binary element to inner header
            c = Container(type='binary', data=b'')
            self.payload.inner_header.binary.append(c)
            c.data = b'\\x01' + data if protected else b'\\x00' + data
'''), 'add_binary with something that is not bytes', 'the refused operation leaves an empty binary behind', '''
kp = db4()
n = len(kp.binaries)
assert raises(kp.add_binary, 'text')
assert len(kp.binaries) == n
''')

# ------------------------------------------------------------------ C15
bug('c15-shared-lump', 'C15', [(CO, '''        for l in self.lump:
            d[l] = ListContainer([])
''', '''        for l in self.lump:
            self.lumped[l].clear()
            d[l] = self.lumped[l]
'''), (CO, '''        self.lump = lump
''', '''        self.lump = lump
        self.lumped = {l: ListContainer([]) for l in lump}
''')], 'two KDBX4 databases open at the same time', 'both show the binaries of the one opened last', '''
a = db4('a.kdbx'); a.add_binary(b'a')
before = a.binaries
b = db4('b.kdbx'); b.add_binary(b'b')
assert a.binaries == before and b.binaries[-1] == b'b'
''')

# ------------------------------------------------------------------ C16
bug('c16-filename', 'C16', (P, '''            filename = self.filename
        if transformed_key is None:''', '''            filename = self.filename
        self.filename = filename
        if transformed_key is None:''') and (P, '''        if hasattr(filename, "write"):
            KDBX.build_stream(''', '''        self.filename = filename
        if hasattr(filename, "write"):
            KDBX.build_stream('''), 'saving a copy under another name and saving again', 'the second save goes to the copy', '''
kp = db4()
f = kp.filename
kp.save(path('copy.kdbx'))
assert kp.filename == f
''')

bug('c16-history', 'C16', (EN, '''        if self._element.find('History') is not None:
            return [''', '''        if self._element.find('History') is None:
            self._element.append(Element('History'))
        if self._element.find('History') is not None:
            return ['''), 'reading the history of an entry without one', 'the database is altered', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
x = kp.xml()
assert e.history == []
assert kp.xml() == x
''')

bug('c16-deref-touch', 'C16', (BA, '''        if self.expires:
            return (''', '''        if self.expires:
            self.touch()
            return ('''), 'asking whether an entry with an expiry date has expired', 'the access time is altered', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p', expiry_time=datetime(2001, 1, 1, tzinfo=timezone.utc))
e.atime = datetime(2002, 1, 1, tzinfo=timezone.utc)
x = kp.xml()
assert e.expired
assert kp.xml() == x
''')

# ------------------------------------------------------------------ C17
bug('c17-keep', 'C17', (EN, '''        if self.password:
            return self._set_string_field('Password', value)
        else:
            return self._set_string_field('Password', value, True)''', '''        return self._set_string_field('Password', value)'''),
    'setting the password of an entry without a password field', 'the password is stored unprotected', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e._element.remove(e._xpath('String[Key="Password"]', first=True))
e.password = 'secret'
assert e._is_property_protected('Password')
''')

# ------------------------------------------------------------------ C18
bug('c18-password', 'C18', (P, '''    keepass_instance.password = password
''', '''    if password or keyfile:
        keepass_instance.password = password
'''), 'create_database without credentials or with an empty password', 'the database has the password of the template', '''
kp = create_database(path('n.kdbx'), password='')
PyKeePass(path('n.kdbx'), password='')
''')

bug('c18-shared', 'C18', [(P, '''    keepass_instance = PyKeePass(
        BLANK_DATABASE_LOCATION, BLANK_DATABASE_PASSWORD
    )
''', '''    global _blank
    if _blank is None:
        _blank = PyKeePass(BLANK_DATABASE_LOCATION, BLANK_DATABASE_PASSWORD)
    keepass_instance = copy(_blank)
'''), (P, 'def create_database(', '_blank = None\n\ndef create_database('), (P, 'import base64\n', 'import base64\nfrom copy import copy\n')],
    'two databases created in one process', 'the second one has the content of the first', '''
a = create_database(path('a.kdbx'), password='a')
a.add_entry(a.root_group, 't', 'u', 'p')
b = create_database(path('b.kdbx'), password='b')
assert not b.entries
''')

# ------------------------------------------------------------------ C19
# ------------------------------------------------------------------ C20


# ------------------------------------------------------------------ C21
bug('c21-version', 'C21', (CO, "if version.startswith('1.0'):", "if version == '1.00':"),
    'an XML key file of version "1.0"', 'the file is hashed instead of read', '''
from pykeepass.kdbx_parsing.common import compute_key_composite
k = b'<KeyFile><Meta><Version>1.0</Version></Meta><Key><Data>' + base64.b64encode(b'k' * 32) + b'</Data></Key></KeyFile>'
assert compute_key_composite(None, io.BytesIO(k)) == hashlib.sha256(b'k' * 32).digest()
''')


bug('c21-hash', 'C21', (CO, 'assert hash == hash_computed, "Keyfile has invalid hash"', 'assert hash_computed.startswith(hash), "Keyfile has invalid hash"'),
    'a version 2 key file whose check value is cut off or empty', 'a damaged key file is accepted', '''
from pykeepass.kdbx_parsing.common import compute_key_composite
k = b'<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="">' + b'00' * 32 + b'</Data></Key></KeyFile>'
assert raises(compute_key_composite, None, io.BytesIO(k))
''')

# ================================================================== second round
bug('c01-blank-protected', 'C01', (CO, '''        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
''', '''        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None and elem.text.strip():
'''), 'a protected value that consists of blanks', 'the value is lost on reopening', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', '   ')
again(kp)
assert kp.find_entries(title='t', first=True).password == '   '
''')

bug('c03-blank', 'C03', (CO, "    if password is not None:\n", "    if password or keyfile and password is not None:\n"),
    'a database with an empty password and no key file', 'it opens without a password and not with its own in other programs', '''
kp = create_database(path('n.kdbx'), password='')
assert raises(PyKeePass, path('n.kdbx'))
''')

bug('c06-same-name', 'C06', (P, '''        if icon:
            group = Group(name=group_name, icon=icon, notes=notes, kp=self)
''', '''        existing = self.find_groups(name=group_name, group=destination_group, recursive=False, first=True)
        if existing is not None and not existing.entries:
            return existing
        if icon:
            group = Group(name=group_name, icon=icon, notes=notes, kp=self)
'''), 'adding a group where an empty one of that name exists', 'no group is added', '''
kp = db4()
a = kp.add_group(kp.root_group, 'same')
b = kp.add_group(kp.root_group, 'same')
assert len(kp.find_groups(name='same')) == 2 and a.uuid != b.uuid
''')

bug('c06-duplicate-password', 'C06', (P, '''            username=username,
            first=True,
            group=destination_group,''', '''            username=username,
            password=password,
            first=True,
            group=destination_group,'''), 'adding an entry of the same title and username with another password',
    'the duplicate is not refused', '''
kp = db4()
g = kp.add_group(kp.root_group, 'g')
kp.add_entry(g, 't', 'u', 'p')
assert raises(kp.add_entry, g, 't', 'u', 'q')
assert len(g.entries) == 1
''')

bug('c06-copy', 'C06', (GR, '''            self._element.append(entries._element)
''', '''            if entries._element.getparent() is not None and entries._element.getparent().getparent() is None:
                return
            self._element.append(entries._element)
''') and (BA, '''        self._element.getparent().remove(self._element)
''', '''        parent = self._element.getparent()
        parent.remove(parent.xpath('./*[UUID=$u]', u=self._element.findtext('UUID'))[0])
'''), 'a history entry that is deleted (all versions carry the same UUID)', 'the first snapshot is deleted instead', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.save_history(); e.title = 't2'; e.save_history()
e.history[1].delete()
assert [h.title for h in e.history] == ['t']
''')

bug('c07-nonrecursive', 'C07', (P, "        prefix = '//Group' if recursive else '/Group'\n", "        prefix = '//Group' if recursive or group is None else '/Group'\n"),
    'x', 'x', 'assert 0')
BUGS.pop()

bug('c07-string-any', 'C07', (P, '''                for key, value in kwargs['string'].items():
''', '''                for key, value in sorted(kwargs['string'].items())[:2]:
'''), 'a search for three custom properties', 'the third one is ignored', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for k in 'abc': e.set_custom_property(k, '1')
assert kp.find_entries(string={'a': '1', 'b': '1', 'c': '2'}) == []
''')

bug('c08-uncompressed', 'C08', (P, "if elem.get('Compressed') == 'True':", "if elem.get('Compressed', 'True') == 'True':"),
    'a KDBX3 binary without the Compressed attribute', 'the binary cannot be read', '''
kp = db3()
i = kp.add_binary(b'data', compressed=False)
for x in kp._xpath('/KeePassFile/Meta/Binaries/Binary[@ID="%d"]' % i): del x.attrib['Compressed']
again(kp)
assert kp.binaries[i] == b'data'
''')

bug('c08-unreferenced', 'C08', (EN, '''        attachment.delete()
''', '''        id = attachment.id
        attachment.delete()
        # nothing refers to the data any more
        if not self._kp.find_attachments(id=id) and id < len(self._kp.binaries):
            self._kp.delete_binary(id)
'''), 'deleting the last current attachment of a binary that a history entry still uses', 'the attachment of the snapshot is lost', '''
kp = db4()
a = kp.add_binary(b'a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.add_attachment(a, 'f')
e.save_history()
e.delete_attachment(e.attachments[0])
assert [x.data for x in e.history[0].attachments] == [b'a']
''')

bug('c10-icon', 'C20', (BA, '''    @icon.setter
    def icon(self, value):
        return self._set_subelement_text('IconID', value)
''', '''    @icon.setter
    def icon(self, value):
        custom = self._element.find('CustomIconUUID')
        if custom is not None:
            self._element.remove(custom)
        return self._set_subelement_text('IconID', value)
'''), 'setting the icon of a group that has a custom icon', 'the custom icon is dropped', '''
kp = db4()
g = kp.add_group(kp.root_group, 'g')
g._element.append(E.CustomIconUUID('AAAAAAAAAAAAAAAAAAAAAA=='))
g.icon = '3'
assert g._element.find('CustomIconUUID') is not None
''')

bug('c10-name', 'C10', (GR, "        return self._set_subelement_text('Name', value)", "        return self._set_subelement_text('Name', value.replace('/', '_') if value else value)"),
    'a group name with a slash', 'another name is stored', '''
kp = db4()
g = kp.add_group(kp.root_group, 'g')
g.name = 'a/b'
assert g.name == 'a/b'
''')

bug('c11-days', 'C11', (P, "        return (now_date - change_date).days > self.credchange_required_days", "        return (now_date.date() - change_date.date()).days > self.credchange_required_days"),
    'a credential change late on one day, asked early on another', 'the change is due before the days have passed', '''
from unittest import mock
import pykeepass.pykeepass as m
kp = db4()
kp.credchange_required_days = 3
kp.credchange_date = datetime(2030, 1, 1, 23, 0, tzinfo=timezone.utc)
class D(datetime):
    @classmethod
    def now(cls, tz=None): return datetime(2030, 1, 5, 1, 0, tzinfo=timezone.utc)
with mock.patch.object(m, 'datetime', D):
    assert not kp.credchange_required
''')

bug('c14-attach', 'C14', (EN, '''        element = E.Binary(
            E.Key(filename),
            E.Value(Ref=str(id))
        )
        self._element.append(element)
''', '''        element = E.Binary()
        self._element.append(element)
        element.append(E.Key(filename))
        element.append(E.Value(Ref=str(id)))
'''), 'an attachment name that XML cannot represent', 'a broken attachment stays behind', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
x = kp.xml()
assert raises(e.add_attachment, 0, 'a\\x00')
assert kp.xml() == x
''')

bug('c15-cipher', 'C15', (CO, '''        cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.encryption_iv.data
        )
        payload_data = cipher.decrypt(payload_data)
''', '''        self.cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.encryption_iv.data
        )
        payload_data = self.cipher.decrypt(payload_data)
'''), 'two threads opening databases of the same cipher at the same time', 'one database is decrypted with the key of the other', '''
from pykeepass.kdbx_parsing import common
step = threading.Barrier(2)
def lines(frame, event, arg):
    if event == 'line':
        try: step.wait(3)
        except threading.BrokenBarrierError: pass
    return lines
def trace(frame, event, arg):
    c = frame.f_code
    if c.co_name == '_decode' and c.co_filename == common.__file__ and isinstance(frame.f_locals.get('self'), common.DecryptedPayload):
        return lines
files = [create_database(path('%d.kdbx' % i), password=str(i)).filename for i in range(2)]
bad = []
def work(i):
    try:
        PyKeePass(files[i], str(i)).entries
    except Exception as e:
        bad.append(e)
threading.settrace(trace)
ts = [threading.Thread(target=work, args=(i,)) for i in range(2)]
[t.start() for t in ts]; [t.join() for t in ts]
threading.settrace(None)
assert not bad
''')

bug('c16-bin', 'C16', (P, "        return self.find_groups(uuid=recyclebin_uuid, first=True)", '''        group = self.find_groups(uuid=recyclebin_uuid, first=True)
        if group is None:
            # forget a recycle bin that was deleted
            elem.text = base64.b64encode(bytes(16)).decode('utf-8')
        return group'''), 'reading the recycle bin of a database whose bin does not exist', 'the registration is altered by reading', '''
kp = db4()
kp._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True).text = base64.b64encode(b'x' * 16).decode()
x = kp.xml()
assert kp.recyclebin_group is None
assert kp.xml() == x
''')

bug('c17-create-otp', 'C17', (EN, '''                    E.String(E.Key('otp'), E.Value(otp, Protected="True"))''', '''                    E.String(E.Key('otp'), E.Value(otp))'''),
    'an entry created with an OTP', 'the OTP is stored in clear text', '''
kp = db4()
e = kp.add_entry(kp.root_group, 't', 'u', 'p', otp='otpauth')
assert e._is_property_protected('otp')
''')

bug('c19-tk', 'C19', (K3, '''    "payload" / If(this._._.decrypt,''', '''    "payload" / If(lambda this: this._._.decrypt or this._._.transformed_key is not None,'''),
    'decrypt=False with a transformed key on KDBX3', 'the payload is decrypted', '''
kp = PyKeePass(copy('test3.kdbx'), 'password', copy('test3.key'))
kp = PyKeePass(path('test3.kdbx'), transformed_key=kp.transformed_key, decrypt=False)
assert raises(lambda: kp.tree)
''')

bug('c19-kdf', 'C19', (P, '''            elif kdf_parameters['$UUID'].value == kdf_uuids['aeskdf']:
                return 'aeskdf'
''', '''            elif kdf_parameters['$UUID'].value == kdf_uuids['aeskdf'] and self.kdbx.body.payload is not None:
                return 'aeskdf'
'''), 'decrypt=False on a KDBX4 database with AES-KDF', 'the key derivation function is not reported', '''
kp = PyKeePass(copy('test4_aeskdf.kdbx'), decrypt=False)
assert kp.kdf_algorithm == 'aeskdf'
''')

bug('c20-prolog', 'C20', (CO, "        return etree.tostring(tree)\n", "        return etree.tostring(tree.getroot())\n"),
    'a document with comments before the root element', 'they are lost', '''
kp = db4()
kp.tree.getroot().addprevious(etree.Comment('note'))
again(kp)
assert b'<!--note-->' in etree.tostring(kp.tree)
''')

bug('c20-undecodable', 'C20', (CO, '''                    log.error(
                        "Element at {}''', '''                    elem.text = None
                    log.error(
                        "Element at {}'''), 'a value marked as protected whose text cannot be decrypted', 'it is dropped from the database', '''
kp = db4()
from pykeepass.kdbx_parsing.common import UnprotectedStream
from construct import Pass
class S(UnprotectedStream):
    def get_cipher(self, key):
        class C:
            encrypt = decrypt = staticmethod(lambda b: b)
        return C
s = S(lambda con: b'', Pass)
t = etree.ElementTree(etree.fromstring('<a><Value Protected="True">/w==</Value></a>'))
s._decode(t, None, '')
assert t.getroot()[0].text == '/w=='
''')

bug('c21-inner-space', 'C21', (CO, "keyfile_composite = bytes.fromhex(data_element.text.strip())", "keyfile_composite = codecs.decode(data_element.text.strip().replace('\\n', '').replace(' ', ''), 'hex')"),
    'a version 2 key file with tabs between the digits', 'the key file is rejected', '''
from pykeepass.kdbx_parsing.common import compute_key_composite
h = hashlib.sha256(b'k' * 32).digest()[:4].hex().encode()
d = (b'k' * 32).hex().encode()
k = b'<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="' + h + b'">' + d[:8] + b'\\t' + d[8:] + b'</Data></Key></KeyFile>'
assert compute_key_composite(None, io.BytesIO(k)) == hashlib.sha256(b'k' * 32).digest()
''')

bug('c21-meta', 'C21', (CO, "            data_element = tree.find('Key/Data')\n", "            data_element = tree[-1].find('Data')\n"),
    'an XML key file with the Key element before the Meta element', 'the key is not found', '''
from pykeepass.kdbx_parsing.common import compute_key_composite
k = b'<KeyFile><Key><Data>' + base64.b64encode(b'k' * 32) + b'</Data></Key><Meta><Version>1.0</Version></Meta></KeyFile>'
assert compute_key_composite(None, io.BytesIO(k)) == hashlib.sha256(b'k' * 32).digest()
''')

bug('c22-cr', 'C22', (P, """        return etree.tostring(
            self.tree,
            pretty_print=True,
            standalone=True,
            encoding='utf-8'
        )
""", """        return etree.tostring(
            self.tree,
            pretty_print=True,
            standalone=True,
            encoding='utf-8'
        ).replace(b'&#13;\\n', b'\\n')
"""), 'a multi-line value with Windows line ends', 'the carriage returns are missing from the exported XML', '''
kp = db4()
kp.entries[0].notes = 'one\\r\\ntwo'
n = kp.entries[0].notes
kp.dump_xml(path('x.xml'))
assert n in [e.text for e in etree.parse(path('x.xml')).iter('Value')]
''')

bug('c22-overwrite', 'C22', (P, """        with open(filename, 'wb') as f:
            f.write(xml)
""", """        with open(filename, 'r+b' if os.path.exists(filename) else 'wb') as f:
            f.write(xml)
"""), 'exporting over a longer file', 'the end of the old file stays behind the exported document', '''
kp = db4()
n = kp.entries[0].notes
kp.entries[0].notes = 'x' * 5000
kp.dump_xml(path('x.xml'))
kp.entries[0].notes = 'short'
kp.dump_xml(path('x.xml'))
etree.parse(path('x.xml'))
assert open(path('x.xml'), 'rb').read() == kp.xml()
''')

bug('c23-ident', 'C23', (BA, "            return self._identity() == other._identity()\n        return NotImplemented\n", "            return self._identity() == other._identity()\n        return self.uuid == other\n"),
    'a handle compared with an identifier', 'the handle equals its own UUID and an UUID is found in a list of entries', '''
kp = db4()
e = kp.entries[0]
assert e != e.uuid and e.uuid not in kp.entries
''')

bug('c23-shown', 'C23', (EN, "        return 'Entry: \"{} ({})\"'.format(pathstr, self.username)", "        return 'Entry: \"{} ({})\"'.format(pathstr, self.username or self.password)"),
    'an entry without a user name', 'its string form shows the password', '''
kp = db4()
e = kp.entries[0]
e.username = ''
e.password = 'SECRET-77'
assert 'SECRET' not in str(e)
''')

bug('c24-target', 'C24', (P, "        if hasattr(filename, \"write\"):\n            KDBX.build_stream(\n                self.kdbx,\n                filename,\n                password=self.password,\n                keyfile=self.keyfile,\n                transformed_key=transformed_key,\n                decrypt=True\n            )\n", "        if hasattr(filename, \"write\"):\n            KDBX.build_stream(\n                self.kdbx,\n                filename,\n                password=self.password,\n                keyfile=self.keyfile,\n                transformed_key=transformed_key,\n                decrypt=True\n            )\n            if hasattr(filename, 'fileno') and getattr(filename, 'raw', None):\n                filename.close()\n"),
    'saving to a file the caller opened', 'the file of the caller is closed', '''
kp = db4()
with open(path('out'), 'wb') as f:
    kp.save(f)
    f.flush()
    f.write(b'')
''')

bug('c24-key', 'C24', (CO, "            keyfile_bytes = keyfile.read()\n", "            keyfile_bytes = keyfile.read()\n            if not keyfile_bytes:\n                keyfile.close()\n"),
    'an empty key file given as a stream', 'the stream of the caller is closed', '''
from pykeepass.kdbx_parsing.common import compute_key_composite
s = io.BytesIO(b'')
compute_key_composite('x', s)
assert not s.closed
''')
