"""C04: damaged files.  Every single-bit change, truncation, byte removal/duplication of small stored files in every configuration,
every block sequence up to a bound, header values, splices of two files; the outcome must be an error or the saved content."""
import hashlib
import io
import itertools
import struct

from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError, HeaderChecksumError, PayloadChecksumError

from .. import content as C
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail, first_diff

LEVEL = 'model_checking'


def doc(v, title='t'):
    e = C.entry(v, 'e', dict(Title=title, Password='secret'), autotype=False)
    return C.document(v, C.group(v, 'root', 'R', e))


CONFS = [(v, ci, co) for v in (3, 4) for ci in ('aes256', 'chacha20', 'twofish') for co in (True, False)]
BLOCK = 200
_made = {}


def make(conf, title='t', label='x', block=BLOCK, kdf='aeskdf', extra=True, saved=False):
    """saved: not the file of the reference writer, but that file opened, edited and saved by the library"""
    key = (conf, title, label, block, kdf, extra, saved)
    if key not in _made:
        v, ci, co = conf
        ex = ([(1, b'a comment')] if v == 3 else [(1, b'a comment'), (12, R.vdict([(0x18, 'k', 'v')]))]) if extra else []
        data, tk, db = K.template(doc(v, title), version=v, cipher=ci, compression=co, label=label, kdf=R.cheap_kdf(kdf, label), extra=ex,
                                  binaries=[(1, b'bin')] if v == 4 else (), block=block)
        kp = PyKeePass(io.BytesIO(data), transformed_key=tk)
        if saved:
            kp.entries[0].notes = 'edited'
            kp.add_group(kp.root_group, 'new')
            b = io.BytesIO()
            kp.save(b, transformed_key=tk)
            data, db = b.getvalue(), R.decode(b.getvalue(), tk=tk)
            kp = PyKeePass(io.BytesIO(data), transformed_key=tk)
        _made[key] = dict(data=data, tk=tk, db=db, view=(K.observe(kp), kp.xml()), regions=regions(data, v, ci, tk))
    return _made[key]


def regions(data, v, cipher, tk):
    """Region name of every byte: what the byte means in the format"""
    out = ['sig'] * 8 + ['minor'] * 2 + ['major'] * 2
    p = 12
    while True:
        t = data[p]
        n = struct.unpack_from('<H' if v == 3 else '<I', data, p + 1)[0]
        hl = 3 if v == 3 else 5
        out += ['item'] * hl
        body = ['value:%d' % t] * n
        if t == 11:
            body = kdf_regions(data[p + hl:p + hl + n])
        out += body
        p += hl + n
        if t == 0:
            break
    if v == 4:
        out += ['sha'] * 32 + ['hmac'] * 32
        p += 64
        while p < len(data):
            n = struct.unpack_from('<I', data, p + 32)[0]
            out += ['bhmac'] * 32 + ['blen'] * 4 + ['bdata'] * n
            p += 36 + n
    else:
        # plaintext layout of the encrypted part, byte for byte
        db = R.decode(data, tk=tk)
        lay = ['start'] * 32
        for n in db.blocks:
            lay += ['bindex'] * 4 + ['bhash'] * 32 + ['blen'] * 4 + ['bdata'] * n
        lay += ['bindex'] * 4 + ['bhash'] * 32 + ['blen'] * 4
        lay += ['pad'] * (len(data) - p - len(lay))
        if cipher != 'chacha20':
            # CBC: a change garbles its own 16-byte block and flips one bit of the next one
            lay2 = []
            for i in range(len(lay)):
                own = set(lay[i // 16 * 16:i // 16 * 16 + 16])
                nxt = {lay[i + 16]} if i + 16 < len(lay) else set()
                s = own | nxt
                lay2.append(s.pop() if len(s) == 1 else 'mixed')
            lay = lay2
        out += lay
    return out


def kdf_regions(d):
    out = ['kdfmeta'] * 2
    p = 2
    while d[p]:
        kn = struct.unpack_from('<I', d, p + 1)[0]
        key = d[p + 5:p + 5 + kn].decode()
        vn = struct.unpack_from('<I', d, p + 5 + kn)[0]
        out += ['kdfmeta'] * (1 + 4 + kn + 4) + ['kdfmeta' if key == '$UUID' else 'kdfval'] * vn
        p += 9 + kn + vn
    return out + ['kdfmeta'] * (len(d) - p)


# format 4: values whose change leaves the header readable; the header hash must report it
EXACT4 = {'minor': HeaderChecksumError, 'value:1': HeaderChecksumError, 'value:4': HeaderChecksumError, 'value:7': HeaderChecksumError,
          'value:12': HeaderChecksumError, 'value:0': HeaderChecksumError, 'kdfval': HeaderChecksumError, 'sha': HeaderChecksumError,
          'hmac': CredentialsError, 'bhmac': PayloadChecksumError, 'bdata': PayloadChecksumError, 'sig': HeaderChecksumError}
EXACT3 = {'sig': HeaderChecksumError, 'bdata': PayloadChecksumError, 'bindex': PayloadChecksumError, 'bhash': PayloadChecksumError,
          'start': CredentialsError,
          # not needed for decryption with a transformed key; the header hash in the document must report it
          'minor': HeaderChecksumError, 'value:1': HeaderChecksumError, 'value:0': HeaderChecksumError, 'value:8': HeaderChecksumError,
          'value:5': HeaderChecksumError, 'value:6': HeaderChecksumError}


def outcome(data, view, tk=None, password=None):
    try:
        kp = PyKeePass(io.BytesIO(data), password=password, transformed_key=tk)
    except Exception as e:
        return type(e)
    got = (K.observe(kp), kp.xml())
    if got != view:
        fail('the damaged file opens and shows different content: %s' % first_diff(got, view), 'different content')
    return None


def judge(conf, region, res, password):
    exact = (EXACT4 if conf[0] == 4 else EXACT3).get(region)
    if conf[0] == 3 and password and region in ('value:5', 'value:6'):
        exact = None
    if exact is not None:
        expect(res is exact, lambda: 'damage in %s: %s, expected %s' % (region, getattr(res, '__name__', 'opened'), exact.__name__), 'type ' + region)
    elif region in ('item', 'major', 'value:2', 'value:3', 'kdfmeta', 'value:4', 'value:7', 'value:9', 'value:10'):
        # with a header hash nothing of the header may change unnoticed
        expect(res is not None, 'damage in %s of the header was not noticed' % region, 'unnoticed ' + region)
    return '%s: %s' % (region, res.__name__ if res else 'same content')


def rounds3(data):
    """Number of key transformation rounds a damaged format-3 header asks for"""
    p, r = 12, 0
    while p + 3 <= len(data):
        t, n = data[p], struct.unpack_from('<H', data, p + 1)[0]
        if t == 6:
            r = int.from_bytes(data[p + 3:p + 11], 'little')
        if t == 0:
            break
        p += 3 + n
    return r


def run_bits(case):
    conf, kdf, mode, lo, hi = case
    mode, saved = mode.replace('-saved', ''), mode.endswith('-saved')
    m = make(conf, kdf=kdf, saved=saved)
    labels = set()
    for bit in range(lo, min(hi, 8 * len(m['data']))):
        i = bit // 8
        region = m['regions'][i]
        d = bytearray(m['data'])
        d[i] ^= 1 << bit % 8
        if mode == 'password' and conf[0] == 3 and rounds3(bytes(d)) > 1 << 18:
            continue    # a format-3 file states the number of rounds unauthenticated: the cost is inherent
        try:
            res = outcome(bytes(d), m['view'], tk=m['tk'] if mode == 'tk' else None, password=None if mode == 'tk' else 'pw')
            labels.add(judge(conf, region, res, mode == 'password'))
        except Exception as e:
            if hasattr(e, 'msg'):
                e.msg = 'bit %d (byte %d, %s): %s' % (bit, i, region, e.msg)
            raise
    return '; '.join(sorted(labels))


def run_cut(case):
    """Truncation at every length, byte removed, byte doubled, neighbours swapped, bytes appended, byte overwritten"""
    conf, kind, lo, hi = case
    kind, saved = kind.replace('-saved', ''), kind.endswith('-saved')
    m = make(conf, saved=saved)
    data = m['data']
    labels = set()
    for i in range(lo, min(hi, len(data))):
        if kind == 'cut':
            d = data[:i]
        elif kind == 'del':
            d = data[:i] + data[i + 1:]
        elif kind == 'dup':
            d = data[:i + 1] + data[i:]
        elif kind == 'swap':
            d = data[:i] + data[i + 1:i + 2] + data[i:i + 1] + data[i + 2:]
        elif kind == 'zero':
            d = data[:i] + bytes(1) + data[i + 1:]
        elif kind == 'zero16':
            d = data[:i] + bytes(min(16, len(data) - i)) + data[i + 16:]
        else:
            d = data + R.det('junk', i + 1)
        if d == data:
            continue
        res = outcome(d, m['view'], tk=m['tk'])
        if kind in ('cut', 'del', 'dup', 'swap') and i < len(R.parse_header(data).header):
            expect(res is not None, '%s at byte %d inside the header was not noticed' % (kind, i))
        if kind == 'cut' and conf[0] == 4:
            expect(res is not None, 'file cut at %d of %d bytes was opened' % (i, len(data)))
        labels.add(res.__name__ if res else 'same content')
    return kind + ': ' + '; '.join(sorted(labels))


def parts4(data):
    p = len(R.parse_header(data).header)
    head = data[:p + 64]
    p += 64
    blocks = []
    while p < len(data):
        n = struct.unpack_from('<I', data, p + 32)[0]
        blocks.append(data[p:p + 36 + n])
        p += 36 + n
    return head, blocks


def run_blocks(case):
    """Every sequence of the file's own blocks up to a length"""
    conf, seq, foreign = case
    v, ci, co = conf
    m = make(conf, block=400 if not co else 250)
    if v == 4:
        head, blocks = parts4(m['data'])
        if foreign:
            # the same document encrypted with the same key but another seed
            _, b2 = parts4(make(conf, block=400 if not co else 250, label='y')['data'])
            blocks = blocks + b2
        seq = [s for s in seq if s < len(blocks)]
        d = head + b''.join(blocks[s] for s in seq)
        n = len(parts4(m['data'])[1])
    else:
        db = m['db']
        tk = m['tk']
        master = hashlib.sha256(db.master_seed + tk).digest()
        hdr = R.parse_header(m['data']).header
        plain = R.outer_decrypt(ci, master, db.iv, m['data'][len(hdr):])
        blocks = []
        p = 32
        while p < len(plain):
            k = struct.unpack_from('<I', plain, p + 36)[0]
            blocks.append(plain[p:p + 40 + k])
            p += 40 + k
        n = len(blocks)
        if foreign:
            blocks = blocks + [struct.pack('<I', 0) + b[4:] for b in blocks]      # wrong index, right hash
        seq = [s for s in seq if s < len(blocks)]
        d = hdr + R.outer_encrypt(ci, master, db.iv, plain[:32] + b''.join(blocks[s] for s in seq))
    res = outcome(d, m['view'], tk=m['tk'])
    whole = list(seq[:n]) == list(range(n))
    if whole:
        expect(res is None, 'complete block sequence rejected: %r' % res)
        return 'complete'
    if v == 3 and foreign and [s % n for s in seq[:n]] == list(range(n)) and all(s < n or s % n == 0 for s in seq[:n]):
        return 'complete'       # index 0 on block 0 is right
    expect(res is not None, lambda: 'block sequence %r of %d blocks was accepted' % (seq, n))
    # all needed blocks there but in the wrong order, repeated, or with a wrong index: the index is authenticated
    return 'rejected: ' + res.__name__


def run_splice(case):
    """Header and payload of two files with the same credentials; header replaced by a consistent but unauthenticated one"""
    conf, kind = case
    a, b = make(conf), make(conf, title='other', label='y')
    ha, hb = R.parse_header(a['data']).header, R.parse_header(b['data']).header
    v = conf[0]
    if kind == 'header':
        d = hb + a['data'][len(ha):]
    elif kind == 'header+sha':
        if v == 3:
            return 'not applicable'
        d = hb + hashlib.sha256(hb).digest() + a['data'][len(ha) + 32:]
    elif kind == 'payload':
        k = 64 if v == 4 else 0
        d = a['data'][:len(ha) + k] + b['data'][len(hb) + k:]
    elif kind == 'comment+sha':
        h2 = ha.replace(b'a comment', b'A comment')
        d = h2 + (hashlib.sha256(h2).digest() + a['data'][len(ha) + 32:] if v == 4 else a['data'][len(ha):])
    elif kind.startswith('value'):
        # a header value replaced, header hash recomputed: only the keyed hash can tell
        if v == 3:
            return 'not applicable'
        t = int(kind[5:])
        db = R.parse_header(a['data'])
        items = [(i, bytes([x[0] ^ 1]) + x[1:] if i == t else x) for i, x in db.items] + [(0, db.end_data)]
        h2 = a['data'][:12] + b''.join(bytes([i]) + struct.pack('<I', len(x)) + x for i, x in items)
        d = h2 + hashlib.sha256(h2).digest() + a['data'][len(ha) + 32:]
    res = outcome(d, a['view'], tk=a['tk'])
    expect(res is not None, 'a spliced file was accepted')
    if v == 4 and kind in ('comment+sha', 'value1', 'value4', 'value7', 'value12', 'header+sha'):
        eq(res, CredentialsError, 'header changed with its plain hash recomputed')
    return res.__name__


def run_notdb(case):
    """Files that are no KDBX file at all"""
    data = case
    try:
        PyKeePass(io.BytesIO(data), password='pw')
    except HeaderChecksumError:
        return 'HeaderChecksumError'
    except Exception as e:
        expect(len(data) < 12 or data[:8] == R.SIG, lambda: 'not a KeePass file: raised %s' % type(e).__name__)
        return 'other error'
    fail('opened something that is no database')


LARGE = {'block1.0M': (1 << 20, 1 << 20), 'block1.5M': (3 << 19, 1 << 30), 'block3M': (3 << 20, 1 << 30), 'block17M': (17 << 20, 1 << 30), 'blocks64K': (1 << 20, 1 << 16), 'blocks700': (28000, 40), 'blocks5000': (20000, 4)}
_large = {}


def large(conf, which):
    """A file whose payload is one large or many small blocks; (data, tk, view, offsets of the blocks)"""
    key = conf, which
    if key not in _large:
        _large.clear()
        v, ci, co = conf
        size, block = LARGE[which]
        text = (R.det('large', 4096).hex() * (size // 8192 + 1))[:size]
        data, tk, db = K.template(doc(v, text), version=v, cipher=ci, compression=co, label='large', block=block)
        p = len(R.parse_header(data).header)
        if v == 4:
            spans, q = [], p + 64
            while q < len(data):
                n = struct.unpack_from('<I', data, q + 32)[0]
                spans.append((q, n))
                q += 36 + n
            plain = None
        else:
            plain = R.outer_decrypt(ci, hashlib.sha256(db.master_seed + tk).digest(), db.iv, data[p:])
            spans, q = [], 32
            while q < len(plain):
                n = struct.unpack_from('<I', plain, q + 36)[0]
                spans.append((p + q, n))
                q += 40 + n
        _large[key] = data, tk, db, p, plain, spans, PyKeePass(io.BytesIO(data), transformed_key=tk).xml()
    return _large[key]


def run_large(case):
    conf, which, lo, hi = case
    data, tk, db, p, plain, spans, xml = large(conf, which)
    v, ci, _ = conf
    head = 36 if v == 4 else 40

    def rejected(d, what, exact=None):
        try:
            kp = PyKeePass(io.BytesIO(d), transformed_key=tk)
        except Exception as e:
            expect(exact is None or type(e) is exact, lambda: '%s: %s' % (what, type(e).__name__))
            return
        expect(kp.xml() == xml, '%s: the damaged file opens and shows different content' % what)
        expect(exact is None, '%s: not reported' % what)
    for i in range(lo, min(hi, len(spans))):
        at, n = spans[i]
        offs = {0, 1, n // 2, n - 2, n - 1} | ({1 << k for k in range(12, 25)} | {(1 << k) - 1 for k in range(12, 25)} if n > 1 << 16 else set())
        offs = sorted(o for o in offs if 0 <= o < n)
        if which in ('blocks700', 'blocks5000'):
            offs = offs[:1]
        for o in offs:
            d = bytearray(data)
            d[at + head + o] ^= 1
            # a chain of cipher blocks spreads the change to the neighbouring structure
            rejected(bytes(d), 'byte %d of block %d of %d changed' % (o, i, len(spans)), PayloadChecksumError if v == 4 or ci == 'chacha20' else None)
        if ci == 'chacha20' or v == 4:
            # whole blocks: doubled, left out, exchanged with the next one and with the one 256 further on
            raw = plain if v == 3 else data
            base = p if v == 3 else 0
            whole = lambda k: raw[spans[k][0] - base:spans[k][0] - base + head + spans[k][1]]
            a = at - base
            if n:
                cand = [('doubled', raw[:a] + whole(i) + raw[a:]), ('left out', raw[:a] + raw[a + head + n:])]
                for j in (i + 1, i + 256):
                    if j < len(spans) - 1 and len(spans) > 2:
                        b = spans[j][0] - base
                        cand.append(('exchanged with block %d' % j, raw[:a] + whole(j) + raw[a + head + n:b] + whole(i) + raw[b + head + spans[j][1]:]))
                for what, d in cand:
                    if v == 3:
                        d = data[:p] + R.outer_encrypt(ci, hashlib.sha256(db.master_seed + tk).digest(), db.iv, d)
                    if d != data:
                        rejected(d, 'block %d %s' % (i, what), PayloadChecksumError)
    return 'rejected'


REPLAY = dict(large=run_large, bits=run_bits, cut=run_cut, blocks=run_blocks, splice=run_splice, notdb=run_notdb)


def main(chk):
    q = chk.quick
    step = 128
    cases = []
    for c in CONFS:
        n = 8 * len(make(c)['data'])
        if q and not c[2] and c[1] == 'twofish':
            continue
        cases += [(c, 'aeskdf', 'tk', i, i + step) for i in range(0, n, step)]
    for c, kdf in (((3, 'aes256', True), 'aeskdf'), ((4, 'aes256', True), 'aeskdf'), ((4, 'chacha20', True), 'argon2'), ((4, 'aes256', True), 'argon2id')):
        n = 8 * (len(make(c, kdf=kdf)['data']) if not q or kdf == 'aeskdf' else 400)
        cases += [(c, kdf, 'password', i, i + step) for i in range(0, n, step)]
    for c in ((3, 'chacha20', False), (4, 'chacha20', False), (3, 'aes256', True), (4, 'aes256', True)):
        cases += [(c, 'aeskdf', 'tk-saved', i, i + step) for i in range(0, 8 * len(make(c, saved=True)['data']), step)]
    chk.run_cases('bits', cases, run_bits, 'configuration x every single bit of the file x way of opening', chunk=2)
    kinds = ('cut', 'del', 'dup', 'swap', 'zero16', 'junk') + (() if q else ('zero',))
    cases = []
    for c in CONFS:
        n = len(make(c)['data'])
        if c[1] == 'twofish' and q and not c[2]:
            continue
        cases += [(c, k, i, i + 64) for k in kinds for i in range(0, n if k != 'junk' else 40, 64)]
    for c in ((3, 'chacha20', False), (4, 'chacha20', False), (3, 'aes256', True), (4, 'aes256', True)):
        cases += [(c, k + '-saved', i, i + 64) for k in kinds[:4] for i in range(0, len(make(c, saved=True)['data']), 64)]
    chk.run_cases('cut', cases, run_cut, 'configuration x edit kind x every byte position', chunk=2)
    cases = []
    for c in [(v, ci, False) for v in (3, 4) for ci in ('chacha20', 'aes256')] + [(4, 'chacha20', True)]:
        for w in LARGE:
            if q and (w == 'block17M' and c != (4, 'chacha20', False) or w == 'blocks5000' and c[1] != 'chacha20' or c[2] and w not in ('block3M', 'blocks700')):
                continue
            n = len(large(c, w)[5])
            w_ = max(1, n // 16)
            cases += [(c, w, i, i + w_) for i in range(0, n, w_)] if n < 1000 else [(c, w, i, i + 4) for i in list(range(0, 520, 4)) + list(range(n - 8, n, 4))]
    chk.run_cases('large', cases, run_large, 'one large block and many small blocks: damaged, doubled, left out, exchanged', chunk=1)
    cases = []
    for c in CONFS:
        b = len(make(c, block=400 if not c[2] else 250)['db'] and (parts4(make(c, block=400 if not c[2] else 250)['data'])[1] if c[0] == 4 else
                                                                     R.decode(make(c, block=400 if not c[2] else 250)['data'], tk=make(c)['tk']).blocks + [0]))
        b = min(b, 5)
        maxlen = min(b + 1, 4 if q else 6)
        for L in range(0, maxlen + 1):
            cases += [(c, s, False) for s in itertools.product(range(b), repeat=L)]
        full = tuple(range(99))
        n = len(parts4(make(c, block=400 if not c[2] else 250)['data'])[1]) if c[0] == 4 else \
            len(R.decode(make(c, block=400 if not c[2] else 250)['data'], tk=make(c)['tk']).blocks) + 1
        whole = tuple(range(n))
        cases += [(c, whole, False), (c, whole + (0,), False), (c, whole + whole, False)]
        for i, j in itertools.permutations(range(n), 2):
            s = list(whole)
            s[i], s[j] = s[j], s[i]
            cases.append((c, tuple(s), False))
            s = list(whole)
            s[i] = j
            cases.append((c, tuple(s), False))
        for i in range(n):
            cases.append((c, whole[:i] + whole[i + 1:], False))
            cases.append((c, whole[:i] + (i,) + whole[i:], False))
            cases.append((c, whole[:i] + (n + i,) + whole[i + 1:], True))
    chk.run_cases('blocks', cases, run_blocks, 'configuration x every sequence of blocks up to the bound, every swap, substitution, omission, repetition and foreign block')
    kinds = ('header', 'header+sha', 'payload', 'comment+sha') + tuple('value%d' % i for i in (1, 2, 3, 4, 7, 11, 12))
    chk.run_cases('splice', [(c, k) for c in CONFS for k in kinds], run_splice, 'configuration x splice of two files')
    nd = [b'', b'\0', b'x' * 7, b'x' * 100, b'PK\x03\x04' + bytes(100), R.SIG, R.SIG[:4] + b'\x66\xfb\x4b\xb5' + bytes(100),
          R.SIG[:4] + b'\x65\xfb\x4b\xb5' + bytes(100), b'<KeePassFile/>' * 5, R.SIG + bytes(50)]
    nd += [make(CONFS[0])['data'][1:], b'\0' + make(CONFS[0])['data'], b'\xef\xbb\xbf' + make(CONFS[6])['data']]
    # every other major version
    good = make((4, 'aes256', True))['data']
    nd += [good[:10] + struct.pack('<H', n) + good[12:] for n in (0, 1, 2, 5, 6, 255, 256, 260, 0xffff)]
    chk.run_cases('notdb', nd, run_notdb, 'inputs that are no KDBX 3/4 file')
