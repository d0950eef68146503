"""C05: interoperability.  Every combination of the freedoms the format leaves a writer, written by the independent codec and read by the
library; everything the library then writes, read strictly by the independent codec."""
import io
import itertools
import os
import xml.etree.ElementTree as ET

from pykeepass import PyKeePass

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from .. import reftwofish
from ..core import eq, expect, fail, first_diff

LEVEL = 'model_checking'


def doc(v, binids=(0, 1), protected_bin=False):
    e1 = C.entry(v, 'e1', dict(Title='t é<&>', UserName='u', Password='p "ä"', URL='l', Notes='a\nb', otp='o'),
                 custom=[('k', 'v', None), ('pk', 'pv', True), ('empty', None, True), ('unprot', 'x', False)], tags='a;b', binaries=[('f', 1), ('g', 0)],
                 history=[C.entry(v, 'e1', dict(Title='old', Password='oldpw'), custom=[('hk', 'hv', True)])])
    e2 = C.entry(v, 'e2', dict(Password='p2', Title='t2'), autotype=False)
    d = C.document(v, C.group(v, 'root', 'Root', e1, C.group(v, 'g1', 'G1', e2, notes='gn')), binaries3=[(b'zero', True), (b'one' * 40, False)])
    if v == 3:
        bs = d.find('Meta/Binaries')
        if protected_bin:
            for b in bs:
                if b.get('Compressed') == 'False':
                    del b.attrib['Compressed']
                    b.set('Protected', 'True')
        kids = list(bs)
        for k in kids:
            bs.remove(k)
        for i in binids:
            bs.append(kids[i])
    return d


BINS4 = [(1, b'zero'), (0, b'one' * 40)]
VARIANTS = ('compact', 'pretty', 'crlf', 'tabs', 'longempty', 'charref', 'decref', 'cdata', 'nodecl', 'bom', 'squote', 'comment', 'pi', 'trail', 'attrspace')


def render(xml, variant):
    """The same document written the way other serialisers do"""
    root = ET.fromstring(xml)
    nl = {'pretty': '\n', 'crlf': '\r\n', 'tabs': '\n'}.get(variant)
    ind = '\t' if variant == 'tabs' else '  '

    def esc(t, attr=False):
        if variant == 'cdata' and not attr and t and ']]>' not in t and '\r' not in t:
            return '<![CDATA[' + t + ']]>'
        t = t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
        if variant == 'charref':
            t = ''.join(c if ord(c) < 128 else '&#x%X;' % ord(c) for c in t)
        if variant == 'decref':
            t = ''.join(c if ord(c) < 128 and c not in 'aeiou' or c in '&;#' else c if c in 'aeiou' else '&#%d;' % ord(c) for c in t)
        return t

    def go(e, depth):
        q = "'" if variant == 'squote' else '"'
        sp = '  ' if variant == 'attrspace' else ' '
        a = ''.join('%s%s%s=%s%s%s' % (sp, k, ' ' if variant == 'attrspace' else '', q, esc(v, True).replace(q, '&quot;' if q == '"' else '&apos;'), q)
                    for k, v in e.attrib.items())
        kids = list(e)
        if kids:
            s = ''
            for k in kids:
                if nl:
                    s += nl + ind * (depth + 1)
                if variant == 'comment':
                    s += '<!-- c -->'
                if variant == 'pi':
                    s += '<?app data?>'
                s += go(k, depth + 1)
            s += (nl + ind * depth) if nl else ''
        else:
            s = esc(e.text or '')
        if not s and variant != 'longempty':
            return '<%s%s%s/>' % (e.tag, a, ' ' if variant == 'attrspace' else '')
        return '<%s%s>%s</%s%s>' % (e.tag, a, s, e.tag, ' ' if variant == 'attrspace' else '')
    out = go(root, 0)
    if variant != 'nodecl':
        out = '<?xml version="1.0" encoding="%s" standalone="yes"?>\n' % ('UTF-8' if variant != 'bom' else 'utf-8') + out
    if variant in ('trail', 'crlf'):
        out += '\r\n\r\n<!-- end -->\n'
    return (b'\xef\xbb\xbf' if variant == 'bom' else b'') + out.encode('utf-8')


def build(spec):
    """spec: dict of the freedoms; returns (bytes, db, composite)"""
    s = dict(version=4, cipher='aes256', compression=True, stream=None, kdf='aeskdf', kdfargs=(), order=None, block=1 << 20, inner='normal',
             extra=(), end=b'\r\n\r\n', variant='compact', binids=(0, 1), pbin=False, minor=None, hh=True, label='x', pw='pw', key=None, fill=0, fields=())
    s.update(spec)
    v = s['version']
    d = doc(v, s['binids'], s['pbin'])
    if s['fill']:
        d.find('Root/Group/Entry').append(C.string('big', 'x' * s['fill'], True))
    if not s['hh'] and v == 3:
        m = d.find('Meta')
        m.remove(m.find('HeaderHash'))
    kw = dict(version=v, cipher=s['cipher'], compression=s['compression'], label=s['label'], extra=s['extra'],
              kdf=R.cheap_kdf(s['kdf'], s['label'], **dict(s['kdfargs'])))
    if s['stream']:
        kw['stream'] = s['stream']
    if v == 4:
        kw['binaries'] = BINS4
    db = R.RefDB(d, **kw)
    db.end_data = s['end']
    if s['minor'] is not None:
        db.minor = s['minor']
    for name, value in s['fields']:
        if name == 'salt':
            db.kdf['S'] = value
        else:
            setattr(db, name, value)
    comp = R.composite(s['pw'], s['key'])
    tk = R.transform(db, comp)
    header = R.header_bytes(db, s['order'])
    import hashlib
    xml = R.xml_bytes(db, hashlib.sha256(header).digest())
    data = R.encode(db, tk, order=s['order'], block=s['block'], xml=render(xml, s['variant']), inner_order=s['inner'])
    return data, db, comp, s


def run_read(case):
    spec = dict(case)
    data, db, comp, s = build(spec)
    want = K.ref_observe(db)
    kp = PyKeePass(io.BytesIO(data), password=s['pw'], keyfile=io.BytesIO(s['key']) if s['key'] is not None else None)
    got = K.observe(kp)
    if got != want:
        fail('content differs from what was written: %s' % first_diff(got, want))
    eq(kp.encryption_algorithm, s['cipher'], 'cipher')
    eq(kp.version, (s['version'], db.minor), 'version')
    eq(kp.kdf_algorithm, s['kdf'], 'key derivation')
    # what the library writes after an edit must be readable by others
    kp.entries[0].password = 'changed é'
    kp.entries[0].url = ''
    b = io.BytesIO()
    kp.save(b)
    try:
        d2 = R.decode(b.getvalue(), comp)
        v2 = K.ref_observe(d2)
    except R.RefError as e:
        if s['minor'] == 1 and 'version' in str(e):
            return 'same (4.1)'
        fail('the independent reader rejects the saved file: %s' % e)
    want['root']['entries'][0]['password'] = 'changed é'
    want['root']['entries'][0]['url'] = None
    if v2 != want:
        fail('the independent reader sees other content in the saved file: %s' % first_diff(v2, want))
    for n in ('version', 'minor', 'cipher', 'compression', 'stream'):
        eq(getattr(d2, n), getattr(db, n), n + ' of the saved file')
    return 'same'


def run_sample(case):
    name, pw, key = case
    t = os.path.join(core.REPO, 'tests')
    if not os.path.exists(os.path.join(t, name)) or key and not os.path.exists(os.path.join(t, key)):
        return 'absent'
    with open(os.path.join(t, name), 'rb') as f:
        data = f.read()
    kb = None
    if key:
        with open(os.path.join(t, key), 'rb') as f:
            kb = f.read()
    db = R.decode(data, R.composite(pw, kb))
    kp = PyKeePass(io.BytesIO(data), password=pw, keyfile=os.path.join(t, key) if key else None)
    try:
        want = K.ref_observe(db)
    except R.RefError as e:
        return 'reference rejects: %s' % e
    got = K.observe(kp)
    if got != want:
        fail('content differs from the independent reading: %s' % first_diff(got, want))
    eq(kp.transformed_key, db.tk, 'transformed key')
    b = io.BytesIO()
    kp.save(b, transformed_key=db.tk)
    d2 = R.decode(b.getvalue(), tk=db.tk)
    v2 = K.ref_observe(d2)
    if v2 != want:
        fail('saved file differs: %s' % first_diff(v2, want))
    return 'same'


def run_twofish(case):
    """The block cipher itself, one bit at a time: keys and blocks with a single bit set, and iterated"""
    try:
        from pykeepass.kdbx_parsing.twofish import Twofish
    except ImportError:
        return 'not there'      # covered through databases
    kind, i = case
    key, block = bytes(32), bytes(16)
    if kind == 'key':
        key = (1 << i).to_bytes(32, 'big')
    elif kind == 'block':
        block = (1 << i).to_bytes(16, 'big')
    elif kind == 'byte':
        key = bytes([i] * 32)
        block = bytes([i ^ 0x55] * 16)
    else:
        key, block = R.det('tfk%d' % i, 32), R.det('tfb%d' % i, 16)
    iv = bytes(16)
    for n in (1, 2, 3):
        plain = (block + R.det('more', 16 * n))[:16 * n]
        want = reftwofish.cbc_encrypt(key, iv, plain)
        got = Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv).encrypt(plain)
        eq(bytes(got), want, 'Twofish-CBC encryption')
        eq(bytes(Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv).decrypt(want)), plain, 'Twofish-CBC decryption')
    return 'same'


REPLAY = dict(layout=run_read, orders=run_read, params=run_read, bytes=run_read, xml=run_read, product=run_read, samples=run_sample, twofish=run_twofish)


def t(**kw):
    return tuple(sorted(kw.items()))


def main(chk):
    q, more = False, not chk.quick
    cfg = [(v, ci, co, st) for v in (3, 4) for ci in ('aes256', 'chacha20', 'twofish') for co in (True, False) for st in ('salsa20', 'chacha20', 'none')]
    blocks = (1, 7, 16, 100, 1 << 20) if q else (1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 64, 100, 1000, 1 << 20)
    cases = [t(version=v, cipher=ci, compression=co, stream=st, block=b, inner=inner)
             for v, ci, co, st in cfg for b in blocks for inner in (('normal', 'swapped', 'binsfirst') if v == 4 else ('normal',))
             if not (q and ci == 'twofish' and b not in (16, 1 << 20))]
    chk.run_cases('product', cases, run_read, 'version x cipher x compression x inner stream x block size x inner header order')
    orders = []
    extras4 = [(1, b'comment'), (12, R.vdict([(0x18, 's', 'é'), (5, 'n', 2 ** 63), (8, 'b', True), (0xc, 'i', -5), (0xd, 'j', -2 ** 40), (0x42, 'raw', b'\0\1')]))]
    for ex in ((), tuple(extras4[:1]), tuple(extras4)):
        for p in itertools.permutations(range(5 + len(ex))):
            if q and len(ex) == 2 and not (sum(a != b for a, b in zip(p, range(7))) <= 3):
                continue
            if q and len(ex) == 1 and not (sum(a != b for a, b in zip(p, range(6))) <= 4):
                continue
            orders.append(t(version=4, order=p, extra=ex))
    for ex in ((), ((1, b'comment'),)):
        n = 9 + len(ex)
        idn = list(range(n))
        perms = {tuple(idn), tuple(reversed(idn))}
        for i in range(n):
            perms.add(tuple(idn[i:] + idn[:i]))
        for i, j in itertools.combinations(range(n), 2):
            p = idn[:]
            p[i], p[j] = p[j], p[i]
            perms.add(tuple(p))
            if not q:
                for k, l in itertools.combinations(range(n), 2):
                    r = p[:]
                    r[k], r[l] = r[l], r[k]
                    perms.add(tuple(r))
        orders += [t(version=3, order=p, extra=ex) for p in sorted(perms)]
    chk.run_cases('orders', orders, run_read, 'orders of the outer header items (format 4: all permutations within the bound; format 3: all rotations and transpositions)')
    par = []
    for r in (1, 2, 3, 10, 255, 256, 257, 65535, 65536, 65537, 70000, 131072 + 3) + ((600_000, 1 << 20, (1 << 24) + 5) if more else ()):
        par += [t(version=v, kdf='aeskdf', kdfargs=(('R', r),)) for v in (3, 4)]
    for k in ('argon2', 'argon2id'):
        for i, m, p, ver, s in itertools.product((1, 2, 5), (8, 32, 64, 1024), (1, 2, 4), (0x10, 0x13), (8, 16, 32, 64)):
            if m >= 8 * p:
                par.append(t(kdf=k, kdfargs=(('I', i), ('M', m * 1024), ('P', p), ('V', ver), ('S', R.det('salt', s)))))
        par.append(t(kdf=k, kdfargs=(('M', 8 * 1024 + 512),)))      # not a multiple of 1 KiB
        for i, m, p, s in ((1, 64, 8, 32), (1, 65, 8, 32), (2, 72, 9, 32), (1, 128, 16, 16), (1, 1001, 3, 32), (1, 13, 1, 32), (1, 1027, 2, 33), (1, 16, 1, 33),
                           (1, 16, 1, 128), (1, 16, 1, 255), (1, 16, 1, 300), (30, 16, 1, 32), (257, 8, 1, 32), (1, 256, 32, 32), (1, 65536, 1, 32), (1, 70000, 4, 32)):
            par.append(t(kdf=k, kdfargs=(('I', i), ('M', m * 1024), ('P', p), ('S', R.det('salt', s)))))
    par += [t(version=v, end=e) for v in (3, 4) for e in (b'', b'\r\n\r\n', b'x', bytes(300))]
    par += [t(version=3, extra=((1, c),)) for c in (b'', b'\0', bytes(1000))] + [t(version=4, extra=((1, c),)) for c in (b'', b'\0', bytes(70000))]
    par += [t(version=4, kdfargs=(('extra', ((0x18, 'note', 'x'), (8, 'flag', False))),))]
    par += [t(version=4, minor=m) for m in (0, 1)]
    par += [t(version=3, hh=h, cipher=c) for h in (True, False) for c in R.CIPHERS]
    par += [t(version=v, pw=pw, key=key) for v in (3, 4) for pw in (None, '', 'é', 'x' * 200) for key in (None, b'', b'abc', R.det('k', 32), R.det('k', 32).hex().encode())]
    par += [t(version=v, label='l%d' % i, cipher=c) for v in (3, 4) for i in range(1024 if more else 64) for c in ('aes256', 'chacha20', 'twofish')]
    par += [t(version=v, cipher=c, compression=z, fill=n, block=b) for v in (3, 4) for c in ('aes256', 'chacha20') for z in (True, False)
            for n in (3_000_000,) for b in (1 << 16, 1 << 20, 1 << 24)]
    # more than 65536 blocks
    par.insert(0, t(version=4, cipher='chacha20', compression=False, fill=48000, block=1))
    par.insert(len(par) // 2, t(version=3, cipher='chacha20', compression=False, fill=48000, block=1))
    chk.run_cases('params', par, run_read, 'key-derivation parameters, comments, end item contents, credentials, seeds')
    pat = []
    for v in (3, 4):
        for name, n in (('master_seed', 32), ('iv', None), ('stream_key', 32 if v == 3 else 64), ('start', 32), ('salt', 32)):
            if name == 'start' and v == 4:
                continue
            for ci in (tuple(R.CIPHERS) if name == 'iv' else ('aes256',)):
                n_ = n or R.IV_LEN[ci]
                base = R.det('pat' + name, n_)
                vals = {bytes(n_), b'\xff' * n_, b'\x80' * n_, b'\x7f' * n_, b' ' * n_, b'\r\n' * (n_ // 2), b'00' * (n_ // 2)}
                vals |= {bytes([b]) + base[1:] for b in range(256)} | {base[:-1] + bytes([b]) for b in range(256)}
                vals |= {base[:i] + bytes([b]) + base[i + 1:] for i in range(n_) for b in (0, 255)}
                if more:
                    vals |= {base[:i] + bytes([b]) + base[i + 1:] for i in range(n_) for b in range(256)}
                pat += [t(version=v, cipher=ci, fields=((name, x),)) for x in sorted(vals)]
    pat += [t(version=4, fields=(('stream_key', R.det('sk', n)),)) for n in (1, 16, 31, 32, 33, 63, 65, 128, 1000)]
    chk.run_cases('bytes', pat, run_read, 'byte patterns of the random header fields: all first and last bytes, 00 and ff at every position, constant fields')
    xml = [t(version=v, variant=x, stream=st, compression=co) for v in (3, 4) for x in VARIANTS for st in ('salsa20', 'chacha20', 'none') for co in (True, False)]
    xml += [t(version=3, binids=b, pbin=p, stream=st, variant=x) for b in ((0, 1), (1, 0)) for p in (False, True) for st in ('salsa20', 'chacha20')
            for x in ('compact', 'pretty')]
    chk.run_cases('xml', xml, run_read, 'serialisation styles of the document x inner stream x compression; order and protection of format-3 binaries')
    samples = [('test3.kdbx', 'password', 'test3.key'), ('test4.kdbx', 'password', 'test4.key'), ('test4_aes.kdbx', 'password', 'test4.key'),
               ('test4_aes_uncompressed.kdbx', 'password', None), ('test4_aeskdf.kdbx', 'password', 'test4.key'), ('test4_argon2id.kdbx', 'password', None),
               ('test4_blankpass.kdbx', '', 'test4.key'), ('test4_chacha20.kdbx', 'password', 'test4.key'), ('test4_chacha20_uncompressed.kdbx', 'password', None),
               ('test4_hex.kdbx', 'password', 'test4_hex.key'), ('test4_keyx.kdbx', 'password', 'test4_keyx.keyx'),
               ('test4_twofish.kdbx', 'password', 'test4.key'), ('test4_twofish_uncompressed.kdbx', 'password', None)]
    chk.run_cases('samples', samples, run_sample, 'files written by KeePass and KeePassXC that are part of the repository', chunk=1)
    tf = [('key', i) for i in range(256)] + [('block', i) for i in range(128)] + [('byte', i) for i in range(256)] + [('mix', i) for i in range(100000 if more else 5000)]
    chk.run_cases('twofish', tf, run_twofish, 'Twofish: every single-bit key and block, every repeated byte')
