"""Independent reference codec for KDBX 3.1 and 4.0, written from the public format description.

Uses hashlib/hmac/zlib/struct, xml.etree (expat, not lxml), Cryptodome's primitive ciphers and the
argon2 primitive; nothing of pykeepass, construct or lxml.  `decode` is strict: everything the
format fixes is checked and reported as RefError.
"""
import base64
import binascii
import hashlib
import hmac
import struct
import xml.etree.ElementTree as ET
import zlib

import argon2
from Cryptodome.Cipher import AES, ChaCha20, Salsa20

from . import reftwofish

SIG = b'\x03\xd9\xa2\x9a\x67\xfb\x4b\xb5'
CIPHERS = {
    'aes256': bytes.fromhex('31c1f2e6bf714350be5805216afc5aff'),
    'twofish': bytes.fromhex('ad68f29f576f4bb9a36ad47af965346c'),
    'chacha20': bytes.fromhex('d6038a2b8b6f4cb5a524339a31dbb59a'),
}
CIPHER_NAMES = {v: k for k, v in CIPHERS.items()}
IV_LEN = {'aes256': 16, 'twofish': 16, 'chacha20': 12}
KDFS = {
    'argon2': bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c'),
    'argon2id': bytes.fromhex('9e298b1956db4773b23dfc3ec6f0a1e6'),
    'aeskdf': bytes.fromhex('c9d9f39a628a4460bf740d08c18a4fea'),
}
KDF_NAMES = {v: k for k, v in KDFS.items()}
STREAMS = {'none': 0, 'salsa20': 2, 'chacha20': 3}
STREAM_NAMES = {v: k for k, v in STREAMS.items()}


class RefError(Exception):
    pass


class RefCredentials(RefError):
    pass


def need(cond, msg):
    if not cond:
        raise RefError(msg)


def det(label, n):
    """n deterministic bytes for the label (test material, not randomness)"""
    return b''.join(hashlib.sha256(('%s/%d' % (label, i)).encode()).digest() for i in range(-(-n // 32)))[:n]


# ---------------------------------------------------------------- keys

def keyfile_component(data):
    """KeePass key file interpretation: XML 1.x, XML 2.x, 32 raw bytes, 64 hex digits, any other file"""
    try:
        root = ET.fromstring(data)
    except (ET.ParseError, ValueError, LookupError):
        root = None
    if root is not None:
        ver = root.find('Meta/Version')
        dat = root.find('Key/Data')
        if ver is not None and dat is not None and ver.text and dat.text:
            if ver.text.startswith('1.0'):
                return base64.b64decode(dat.text)
            if ver.text.startswith('2.0'):
                key = bytes.fromhex(''.join(dat.text.split()))
                if hashlib.sha256(key).digest()[:4] != bytes.fromhex(dat.get('Hash', '')):
                    raise RefError('key file hash')
                return key
    if len(data) == 32:
        return data
    if len(data) == 64 and all(c in b'0123456789abcdefABCDEF' for c in data):
        return binascii.unhexlify(data)
    return hashlib.sha256(data).digest()


def composite(password=None, keyfile=None):
    parts = b''
    if password is not None:
        parts += hashlib.sha256(password.encode('utf-8')).digest()
    if keyfile is not None:
        parts += keyfile_component(keyfile)
    return hashlib.sha256(parts).digest()


def aes_kdf(seed, rounds, comp):
    c = AES.new(seed, AES.MODE_ECB)
    k = comp
    for _ in range(rounds):
        k = c.encrypt(k)
    return hashlib.sha256(k).digest()


_TRANSFORMED = {}


def transform(db, comp):
    """Transformed key; pure, so the last results are kept"""
    key = (comp, repr(sorted(db.kdf.items())))
    if key not in _TRANSFORMED:
        if len(_TRANSFORMED) > 64:
            _TRANSFORMED.clear()
        _TRANSFORMED[key] = _transform(db, comp)
    return _TRANSFORMED[key]


def _transform(db, comp):
    k = db.kdf
    if k['name'] == 'aeskdf':
        return aes_kdf(k['S'], k['R'], comp)
    return argon2.low_level.hash_secret_raw(
        secret=comp, salt=k['S'], hash_len=32, time_cost=k['I'], memory_cost=k['M'] // 1024,
        parallelism=k['P'], version=k['V'],
        type=argon2.low_level.Type.ID if k['name'] == 'argon2id' else argon2.low_level.Type.D)


# ---------------------------------------------------------------- database value

class RefDB:
    """Plain value: header parameters plus an ElementTree root whose protected values are plaintext."""

    def __init__(self, xml, version=4, cipher='aes256', compression=True, kdf=None, stream=None, label='x',
                 binaries=(), extra=()):
        self.version = version
        self.minor = 1 if version == 3 else 0
        self.cipher = cipher
        self.compression = compression
        self.kdf = kdf or cheap_kdf('aeskdf', label)
        self.stream = stream or ('salsa20' if version == 3 else 'chacha20')
        self.master_seed = det(label + 'seed', 32)
        self.iv = det(label + 'iv', IV_LEN[cipher])
        self.stream_key = det(label + 'sk', 32 if version == 3 else 64)
        self.start = det(label + 'start', 32)
        self.binaries = list(binaries)          # KDBX4: list of (flag byte, data)
        self.extra = list(extra)                # extra outer header items (id, bytes)
        self.end_data = b'\r\n\r\n'
        self.xml = xml


def cheap_kdf(name, label='x', **kw):
    if name == 'aeskdf':
        d = dict(name=name, S=det(label + 'salt', 32), R=1)
    else:
        d = dict(name=name, S=det(label + 'salt', 32), I=1, M=8 * 1024, P=1, V=0x13)
    d.update(kw)
    return d


def stream_cipher(name, key):
    if name == 'salsa20':
        return Salsa20.new(key=hashlib.sha256(key).digest(), nonce=bytes.fromhex('e830094b97205d2a'))
    if name == 'chacha20':
        h = hashlib.sha512(key).digest()
        return ChaCha20.new(key=h[:32], nonce=h[32:44])
    return None


def iter_protected(root):
    for el in root.iter():
        if el.tag in ('Value', 'Binary') and el.get('Protected') == 'True':
            yield el


def secret(el, cipher, encrypt):
    """Text of a protected element after encryption/decryption; binaries are base64 text on both sides"""
    if encrypt:
        d = base64.b64decode(el.text) if el.tag == 'Binary' else el.text.encode('utf-8')
        return base64.b64encode(cipher.encrypt(d)).decode()
    d = cipher.decrypt(base64.b64decode(el.text, validate=True))
    return base64.b64encode(d).decode() if el.tag == 'Binary' else d.decode('utf-8')


# ---------------------------------------------------------------- encoding

def xml_bytes(db, header_hash=None, raw_values=None):
    root = clone(db.xml)
    if header_hash is not None:
        hh = root.find('Meta/HeaderHash')
        if hh is not None:
            hh.text = base64.b64encode(header_hash).decode()
    c = stream_cipher(db.stream, db.stream_key)
    if c is not None:
        for el in iter_protected(root):
            if el.text is not None:
                el.text = secret(el, c, True)
    return b'<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n' + ser(root).encode('utf-8')


def ser(el):
    """XML text of el (own serialiser: every carriage return escaped, empty element when no content)"""
    def esc(t):
        return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    a = ''.join(' %s="%s"' % (k, esc(v).replace('"', '&quot;').replace('\n', '&#10;')) for k, v in el.attrib.items())
    inner = esc(el.text or '') + ''.join(ser(c) + esc(c.tail or '') for c in el)
    return '<%s%s>%s</%s>' % (el.tag, a, inner, el.tag) if inner else '<%s%s/>' % (el.tag, a)


def clone(el):
    n = ET.Element(el.tag, dict(el.attrib))
    n.text, n.tail = el.text, el.tail
    for c in el:
        n.append(clone(c))
    return n


def vdict(items):
    out = b'\x00\x01'
    for typ, key, val in items:
        k = key.encode()
        if typ == 4:
            v = struct.pack('<I', val)
        elif typ == 5:
            v = struct.pack('<Q', val)
        elif typ == 8:
            v = b'\x01' if val else b'\x00'
        elif typ == 0xc:
            v = struct.pack('<i', val)
        elif typ == 0xd:
            v = struct.pack('<q', val)
        elif typ == 0x18:
            v = val.encode()
        else:
            v = val
        out += bytes([typ]) + struct.pack('<I', len(k)) + k + struct.pack('<I', len(v)) + v
    return out + b'\x00'


def kdf_items(k):
    if k['name'] == 'aeskdf':
        it = [(0x42, '$UUID', KDFS['aeskdf']), (5, 'R', k['R']), (0x42, 'S', k['S'])]
    else:
        it = [(0x42, '$UUID', KDFS[k['name']]), (5, 'I', k['I']), (5, 'M', k['M']), (4, 'P', k['P']),
              (0x42, 'S', k['S']), (4, 'V', k['V'])]
    return it + list(k.get('extra', []))


def header_items(db):
    items = [(2, CIPHERS[db.cipher]), (3, struct.pack('<I', 1 if db.compression else 0)), (4, db.master_seed)]
    if db.version == 3:
        items += [(5, db.kdf['S']), (6, struct.pack('<Q', db.kdf['R'])), (7, db.iv), (8, db.stream_key),
                  (9, db.start), (10, struct.pack('<I', STREAMS[db.stream]))]
    else:
        items += [(7, db.iv), (11, vdict(kdf_items(db.kdf)))]
    return items + db.extra


def header_bytes(db, order=None):
    items = header_items(db)
    if order is not None:
        items = [items[i] for i in order]
    items = items + [(0, db.end_data)]
    fmt = '<H' if db.version == 3 else '<I'
    return SIG + struct.pack('<HH', db.minor, db.version) + b''.join(
        bytes([i]) + struct.pack(fmt, len(d)) + d for i, d in items)


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def outer_encrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).encrypt(data)
    data = pad(data)
    if cipher == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).encrypt(data)
    return reftwofish.cbc_encrypt(key, iv, data)


def outer_decrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).decrypt(data)
    need(len(data) > 0 and len(data) % 16 == 0, 'ciphertext length')
    if cipher == 'aes256':
        out = AES.new(key, AES.MODE_CBC, iv).decrypt(data)
    else:
        out = reftwofish.cbc_decrypt(key, iv, data)
    n = out[-1]
    if not (1 <= n <= 16 and out[-n:] == bytes([n]) * n):
        raise RefCredentials('padding')
    return out[:-n]


def gz(data):
    c = zlib.compressobj(6, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def split(data, size):
    return [data[i:i + size] for i in range(0, len(data), size)]


def block_key(seed, tk, index):
    return hashlib.sha512(struct.pack('<Q', index) + hashlib.sha512(seed + tk + b'\x01').digest()).digest()


def encode(db, tk, order=None, block=1 << 20, xml=None, inner_order='normal'):
    header = header_bytes(db, order)
    x = xml if xml is not None else xml_bytes(db, hashlib.sha256(header).digest())
    master = hashlib.sha256(db.master_seed + tk).digest()
    if db.version == 3:
        if db.compression:
            x = gz(x)
        out = db.start
        blocks = split(x, block)
        for i, b in enumerate(blocks):
            out += struct.pack('<I', i) + hashlib.sha256(b).digest() + struct.pack('<I', len(b)) + b
        out += struct.pack('<I', len(blocks)) + bytes(32) + struct.pack('<I', 0)
        return header + outer_encrypt(db.cipher, master, db.iv, out)
    sid = b'\x01' + struct.pack('<I', 4) + struct.pack('<I', STREAMS[db.stream])
    skey = b'\x02' + struct.pack('<I', len(db.stream_key)) + db.stream_key
    bins = b''.join(b'\x03' + struct.pack('<I', len(d) + 1) + bytes([f]) + d for f, d in db.binaries)
    inner = {'normal': sid + skey + bins, 'swapped': skey + sid + bins, 'binsfirst': bins + skey + sid}[inner_order]
    data = inner + b'\x00' + struct.pack('<I', 0) + x
    if db.compression:
        data = gz(data)
    data = outer_encrypt(db.cipher, master, db.iv, data)
    hm = hmac.new(block_key(db.master_seed, tk, (1 << 64) - 1), header, hashlib.sha256).digest()
    return header + hashlib.sha256(header).digest() + hm + frame4(data, db.master_seed, tk, block)


def frame4(data, seed, tk, block=1 << 20, blocks=None):
    out = b''
    for i, b in enumerate((blocks if blocks is not None else split(data, block)) + [b'']):
        msg = struct.pack('<Q', i) + struct.pack('<I', len(b)) + b
        out += hmac.new(block_key(seed, tk, i), msg, hashlib.sha256).digest() + struct.pack('<I', len(b)) + b
    return out


# ---------------------------------------------------------------- decoding (strict)

class Rd:
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        need(self.p + n <= len(self.d), 'truncated at %d (+%d)' % (self.p, n))
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u16(self):
        return struct.unpack('<H', self.take(2))[0]

    def u32(self):
        return struct.unpack('<I', self.take(4))[0]


def parse_vdict(data):
    r = Rd(data)
    need(r.take(2) == b'\x00\x01', 'variant dictionary version')
    out = []
    while True:
        t = r.take(1)[0]
        if t == 0:
            break
        k = r.take(r.u32()).decode()
        v = r.take(r.u32())
        if t == 4:
            v = struct.unpack('<I', v)[0]
        elif t == 5:
            v = struct.unpack('<Q', v)[0]
        elif t == 8:
            v = v != b'\x00'
        elif t == 0xc:
            v = struct.unpack('<i', v)[0]
        elif t == 0xd:
            v = struct.unpack('<q', v)[0]
        elif t == 0x18:
            v = v.decode()
        else:
            need(t == 0x42, 'variant type')
        out.append((t, k, v))
    need(r.p == len(data), 'variant dictionary trailing data')
    return out


def parse_header(data):
    r = Rd(data)
    need(r.take(8) == SIG, 'signature')
    db = RefDB.__new__(RefDB)
    db.minor, db.version = r.u16(), r.u16()
    need((db.version, db.minor) in ((3, 1), (4, 0)), 'version %r' % ((db.version, db.minor),))
    items = []
    while True:
        t = r.take(1)[0]
        d = r.take(r.u16() if db.version == 3 else r.u32())
        if t == 0:
            db.end_data = d
            break
        items.append((t, d))
    h = dict(items)
    need(len(h) == len(items), 'duplicate header item')
    known = {2, 3, 4, 5, 6, 7, 8, 9, 10} if db.version == 3 else {2, 3, 4, 7, 11}
    need(known <= set(h), 'header items missing: %r' % (known - set(h)))
    db.extra = [(t, d) for t, d in items if t not in known]
    need(h[2] in CIPHER_NAMES, 'cipher id')
    db.cipher = CIPHER_NAMES[h[2]]
    c = struct.unpack('<I', h[3])[0]
    need(c in (0, 1), 'compression')
    db.compression = bool(c)
    db.master_seed, db.iv = h[4], h[7]
    need(len(h[4]) == 32, 'master seed length')
    need(len(h[7]) == IV_LEN[db.cipher], 'iv length')
    db.binaries = []
    if db.version == 3:
        need(len(h[5]) == 32 and len(h[6]) == 8 and len(h[9]) == 32, 'header lengths')
        db.kdf = dict(name='aeskdf', S=h[5], R=struct.unpack('<Q', h[6])[0])
        db.stream_key, db.start = h[8], h[9]
        sid = struct.unpack('<I', h[10])[0]
        need(sid in STREAM_NAMES, 'stream id')
        db.stream = STREAM_NAMES[sid]
    else:
        v = {k: (t, x) for t, k, x in parse_vdict(h[11])}
        need(v['$UUID'][1] in KDF_NAMES, 'kdf')
        name = KDF_NAMES[v['$UUID'][1]]
        db.kdf = dict(name=name, S=v['S'][1])
        for k in (('R',) if name == 'aeskdf' else ('I', 'M', 'P', 'V')):
            db.kdf[k] = v[k][1]
        db.kdf['extra'] = [(t, k, x) for t, k, x in parse_vdict(h[11]) if k not in ('$UUID', 'S', 'R', 'I', 'M', 'P', 'V')]
    db.header = data[:r.p]
    db.items = items
    return db


def decode(data, comp=None, tk=None, trailing_ok=False, lenient=False):
    """Strictly decode `data`; `comp` is the composite key or `tk` the transformed key."""
    db = parse_header(data)
    if tk is None:
        tk = transform(db, comp)
    db.tk = tk
    r = Rd(data)
    r.p = len(db.header)
    master = hashlib.sha256(db.master_seed + tk).digest()
    if db.version == 3:
        plain = outer_decrypt(db.cipher, master, db.iv, data[r.p:])
        if plain[:32] != db.start:
            raise RefCredentials('stream start bytes')
        b = Rd(plain)
        b.p = 32
        i, body, db.blocks = 0, b'', []
        while True:
            need(b.u32() == i, 'block index')
            hsh, n = b.take(32), b.u32()
            blk = b.take(n)
            if n == 0:
                need(hsh == bytes(32), 'final block hash')
                break
            need(hsh == hashlib.sha256(blk).digest(), 'block hash')
            body += blk
            db.blocks.append(n)
            i += 1
        need(b.p == len(plain), 'data after the final block')
        if db.compression:
            body = gunzip(body)
        db.xml_bytes = body
    else:
        need(r.take(32) == hashlib.sha256(db.header).digest(), 'header hash')
        if r.take(32) != hmac.new(block_key(db.master_seed, tk, (1 << 64) - 1), db.header, hashlib.sha256).digest():
            raise RefCredentials('header hmac')
        i, body, db.blocks = 0, b'', []
        while True:
            hm, n = r.take(32), r.u32()
            blk = r.take(n)
            msg = struct.pack('<Q', i) + struct.pack('<I', n) + blk
            need(hm == hmac.new(block_key(db.master_seed, tk, i), msg, hashlib.sha256).digest(), 'block hmac %d' % i)
            if n == 0:
                break
            body += blk
            db.blocks.append(n)
            i += 1
        need(trailing_ok or r.p == len(data), 'data after the final block')
        db.end = r.p
        body = outer_decrypt(db.cipher, master, db.iv, body)
        if db.compression:
            body = gunzip(body)
        b = Rd(body)
        seen = {}
        while True:
            t, d = b.take(1)[0], b.take(b.u32())
            if t == 0:
                need(d == b'', 'inner end')
                break
            need(t in (1, 2, 3), 'inner header type')
            if t == 3:
                need(len(d) >= 1, 'binary without flag byte')
                need(d[0] in (0, 1), 'binary flag byte')
                db.binaries.append((d[0], d[1:]))
            else:
                need(t not in seen, 'duplicate inner header item')
                seen[t] = d
        need(1 in seen and 2 in seen, 'inner header items')
        sid = struct.unpack('<I', seen[1])[0]
        need(sid in STREAM_NAMES, 'stream id')
        db.stream, db.stream_key = STREAM_NAMES[sid], seen[2]
        db.xml_bytes = body[b.p:]
    try:
        root = ET.fromstring(db.xml_bytes)
    except ET.ParseError as e:
        raise RefError('XML: %s' % e)
    db.raw_xml = clone(root)
    c = stream_cipher(db.stream, db.stream_key)
    for el in iter_protected(root):
        if el.text is not None and c is not None:
            try:
                el.text = secret(el, c, False)
            except (binascii.Error, ValueError):
                if not lenient:
                    raise RefError('protected value does not decrypt')
    db.xml = root
    if db.version == 3:
        hh = root.find('Meta/HeaderHash')
        if hh is not None and hh.text:
            need(base64.b64decode(hh.text) == hashlib.sha256(db.header).digest(), 'HeaderHash')
    need(root.tag == 'KeePassFile' and root.find('Meta') is not None and root.find('Root/Group') is not None, 'layout')
    return db


def gunzip(body):
    d = zlib.decompressobj(31)
    try:
        out = d.decompress(body) + d.flush()
    except zlib.error as e:
        raise RefError('gzip: %s' % e)
    need(d.eof and not d.unused_data, 'gzip stream incomplete or followed by data')
    return out


def canon(el, strip_ws=True):
    """Tree as nested tuples: tag, attributes, text, children; formatting whitespace dropped, '' == None."""
    kids = tuple(canon(c, strip_ws) for c in el)
    text = el.text or ''
    if kids and strip_ws and not text.strip():
        text = ''
    return (el.tag, tuple(sorted(el.attrib.items())), text, kids)
