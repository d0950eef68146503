"""C21: key files.  Contents x ways of passing them; oracle: the independent key file reader of mc.refkdbx (KeePass' rules) and files it encrypted."""
import base64
import hashlib
import io
import os
import pathlib
import shutil
import tempfile

from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail

LEVEL = 'model_checking'
KEY = bytes(range(200, 232))


def doc(v):
    return C.document(v, C.group(v, 'root', 'Root', C.entry(v, 'e', dict(Title='t', Password='p'))))


# ---------------------------------------------------------------- contents
def v1(data, ver='1.00', layout='plain', **kw):
    return xml(ver, base64.b64encode(data).decode(), None, layout, **kw)


def v2(data, ver='2.0', layout='groups', upper=True, h=None, hashcase=str.upper, **kw):
    x = data.hex().upper() if upper else data.hex()
    h = hashlib.sha256(data).digest()[:4].hex() if h is None else h
    if layout == 'groups':
        x = '\n\t\t\t' + '\n\t\t\t'.join(' '.join(x[i + j:i + j + 8] for j in range(0, 32, 8)) for i in range(0, len(x), 32)) + '\n\t\t'
    elif layout == 'oneline':
        x = ' '.join(x[i:i + 8] for i in range(0, len(x), 8))
    elif layout == 'pairs':
        x = ' '.join(x[i:i + 2] for i in range(0, len(x), 2))
    elif layout == 'crlf':
        x = '\r\n  ' + x[:32] + '\r\n  ' + x[32:] + '\r\n'
    return xml(ver, x, hashcase(h), 'plain', **kw)


def xml(ver, data, h, layout, decl=True, nl='\n', root='KeyFile', extra='', bom=False, quote='"', swap=False, more='', kmore=''):
    if layout == 'ws':
        data = '\n   ' + data + '\n  '
    elif layout == 'split':
        data = '\n'.join(data[i:i + 16] for i in range(0, len(data), 16))
    a = '' if h is None else ' Hash=%s%s%s' % (quote, h, quote)
    s = ('<?xml version=%s1.0%s encoding=%sutf-8%s?>%s' % (quote, quote, quote, quote, nl) if decl else '')
    meta = '<Meta>%s<Version>%s</Version>%s%s</Meta>%s' % (nl, ver, extra, nl, nl)
    key = '<Key>%s%s<Data%s>%s</Data>%s</Key>%s' % (nl, kmore, a, data, nl, nl)
    s += '<%s>%s%s%s%s</%s>%s' % (root, nl, *((key, meta) if swap else (meta, key)), more, root, nl)
    return (b'\xef\xbb\xbf' if bom else b'') + s.encode()


def contents(quick):
    out = {}
    for n in list(range(0, 70)) + [95, 96, 127, 128, 129, 255, 256, 1000, 4096, 65536, 1 << 20]:
        for nm, fill in (('zero', b'\0'), ('ff', b'\xff'), ('hex', b'a9F'), ('digit', b'7'), ('text', b'xyz'), ('space', b' '), ('lt', b'<'), ('nl', b'\n'), ('utf', 'é'.encode())):
            out['len %d %s' % (n, nm)] = (fill * (n // len(fill) + 1))[:n]
        out['len %d det' % n] = R.det('kf%d' % n, n)
    hexes = dict(lower=KEY.hex().encode(), upper=KEY.hex().upper().encode(), mixed=(KEY.hex()[:31] + KEY.hex()[31:].upper()).encode(), digits=b'0123456789' * 6 + b'0123')
    for nm, h in hexes.items():
        out['hex ' + nm] = h
        for t in (b'\n', b'\r\n', b' ', b'\0', b'h'):
            out['hex %s + %r' % (nm, t)] = h + t
            out['hex %r + %s' % (t, nm)] = t + h
        for p in range(64) if nm == 'mixed' or not quick else (0, 1, 2, 31, 32, 62, 63):
            for ch in b'gG_+- xX\n\t.\x00:@`/\xff\x0b\r':
                out['hex %s [%d]=%d' % (nm, p, ch)] = h[:p] + bytes([ch]) + h[p + 1:]
        out['0x ' + nm] = b'0x' + h[2:]
        out['0X ' + nm] = b'0X' + h[2:]
        out['+ ' + nm] = b'+' + h[1:]
        out['-0x ' + nm] = b'-0x' + h[3:]
        out['spaced ' + nm] = b'  ' + h[4:] + b'  '
        out['grouped ' + nm] = b' '.join(h[i:i + 7] for i in range(0, 56, 7))[:64].ljust(64, b'a')
        out['colons ' + nm] = b':'.join(h[i:i + 2] for i in range(0, 64, 2))[:64]
    for b in range(256):
        out['32 first %d' % b] = bytes([b]) + KEY[1:]
        out['64 first %d' % b] = bytes([b]) + b'ab' * 31 + b'c'
        out['64 last %d' % b] = b'ab' * 31 + b'c' + bytes([b])
        out['5 byte %d' % b] = b'<a>%c' % b + b'x'
    # XML key files
    datas = [KEY, bytes(32), b'\xff' * 32, R.det('k', 32)] + [R.det('k', n) for n in (1, 16, 31, 33, 64)]
    for i, d in enumerate(datas):
        for lay in ('plain', 'ws', 'split'):
            for ver in ('1.00', '1.0'):
                out['v1 %d %s %s' % (i, lay, ver)] = v1(d, ver, lay)
        for lay in ('groups', 'oneline', 'plain', 'pairs', 'crlf'):
            for up in (True, False):
                out['v2 %d %s %s' % (i, lay, up)] = v2(d, layout=lay, upper=up)
    for o in (dict(decl=False), dict(nl=''), dict(nl='\r\n'), dict(extra='<Generator>x</Generator>'), dict(bom=True), dict(extra='<!-- c -->'), dict(quote="'"), dict(swap=True), dict(more='<Extra><Data>AAAA</Data></Extra>'), dict(kmore='<Note>n</Note>'), dict(more='<!-- c -->', kmore='<!-- d -->', swap=True), dict(extra='<Data>AAAA</Data>'), dict(decl=False, nl='')):
        out['v1 %r' % o] = v1(KEY, **o)
        out['v2 %r' % o] = v2(KEY, **o)
    out['v2 hash lower'] = v2(KEY, hashcase=str.lower)
    # XML that is not a key file is a file like any other
    for nm, x in (('other', b'<a><b>c</b></a>'), ('empty root', b'<KeyFile/>'), ('no version', b'<KeyFile><Meta/><Key><Data>%s</Data></Key></KeyFile>' % base64.b64encode(KEY)),
                  ('no meta', b'<KeyFile><Key><Data>%s</Data></Key></KeyFile>' % base64.b64encode(KEY)), ('32', b'<a>' + b'x' * 25 + b'</a>'), ('64', b'<a>' + b'x' * 57 + b'</a>'),
                  ('html', b'<html><Meta><p>1.0</p></Meta></html>'), ('unclosed', v1(KEY)[:-12]), ('trailing', v1(KEY) + b'garbage'), ('entity', b'<!DOCTYPE a [<!ENTITY x "y">]><a>&x;</a>'),
                  ('svg', b'<?xml version="1.0"?><svg xmlns="http://www.w3.org/2000/svg"><Meta><Version>1.0</Version></Meta></svg>')):
        out['xml ' + nm] = x
    for n in ((17 << 20) + 3, (33 << 20) + 1):
        out['len %d det' % n] = R.det('kfbig', n)
    out['xml big'] = b'<a>' + b'x' * (11 << 20) + b'</a>'
    return out


def refused(quick):
    """XML key files of version 2 whose data do not match the hash"""
    out = {}
    good = v2(KEY, layout='plain')
    i = good.index(KEY.hex().upper().encode())
    for p in range(64):
        x = good[i + p:i + p + 1]
        out['data digit %d' % p] = good[:i + p] + (b'0' if x != b'0' else b'1') + good[i + p + 1:]
    h = hashlib.sha256(KEY).digest()[:4].hex().upper()
    for p in range(8):
        out['hash digit %d' % p] = v2(KEY, h=h[:p] + ('0' if h[p] != '0' else '1') + h[p + 1:])
    out['hash of other data'] = v2(KEY, h=hashlib.sha256(bytes(32)).digest()[:4].hex())
    out['full hash missing a byte'] = v2(KEY, h=h[:6])
    out['empty hash'] = v2(KEY, h='')
    out['data truncated'] = v2(KEY, layout='plain').replace(KEY.hex().upper().encode(), KEY.hex().upper().encode()[:62])
    return out


# ---------------------------------------------------------------- ways of passing a key file
class OneWay(io.RawIOBase):
    """A stream that cannot be rewound, such as a pipe"""

    def __init__(self, data):
        self.b = io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, buf):
        d = self.b.read(min(len(buf), 7))
        buf[:len(d)] = d
        return len(d)


class Minimal:
    """The least a file-like object offers"""

    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)


def at(stream, pos):
    stream.seek(pos)
    return stream


def spooled(data):
    f = tempfile.SpooledTemporaryFile()
    f.write(data)
    return f


MODES = {
    'path': lambda p, d: p, 'Path': lambda p, d: pathlib.Path(p), 'PurePath': lambda p, d: pathlib.PurePath(p), 'relative': lambda p, d: os.path.relpath(p),
    'file': lambda p, d: open(p, 'rb'), 'file at end': lambda p, d: at(open(p, 'rb'), len(d)), 'unbuffered': lambda p, d: open(p, 'rb', buffering=0), 'rw file': lambda p, d: open(p, 'r+b'),
    'BytesIO': lambda p, d: io.BytesIO(d), 'BytesIO middle': lambda p, d: at(io.BytesIO(d), len(d) // 2), 'BytesIO end': lambda p, d: at(io.BytesIO(d), len(d)),
    'BytesIO beyond': lambda p, d: at(io.BytesIO(d), len(d) + 10), 'spooled': lambda p, d: spooled(d), 'one way': lambda p, d: OneWay(d), 'buffered one way': lambda p, d: io.BufferedReader(OneWay(d)), 'minimal': lambda p, d: Minimal(d),
}
TK = {}


def file_for(v, pw, data):
    """A file whose key contains what the independent reader makes of the key file"""
    db = R.RefDB(doc(v), version=v)
    comp = R.composite(pw, data)
    tk = R.transform(db, comp)
    return R.encode(db, tk), tk, comp


def meaning(case):
    v, name = case
    data = contents(False)[name] if name not in ALL else ALL[name]
    d = core.scratch()
    try:
        p = os.path.join(d, 'k')
        with open(p, 'wb') as f:
            f.write(data)
        for pw in (None, 'pw'):
            f, tk, comp = file_for(v, pw, data)
            for kf in (p, io.BytesIO(data)):
                try:
                    kp = PyKeePass(io.BytesIO(f), password=pw, keyfile=kf)
                except Exception as e:
                    fail('key file %r (%d bytes): a database KeePass would open with it is refused: %s %s' % (name, len(data), type(e).__name__, e), 'refused ' + type(e).__name__)
                eq(kp.entries[0].title, 't', 'content')
                eq(kp.transformed_key, tk, 'transformed key')
            b = io.BytesIO()
            kp.save(b)
            R.decode(b.getvalue(), comp=comp)
        # and as new key file of a database
        f, tk, comp = file_for(v, 'old', b'old key file')
        kp = PyKeePass(io.BytesIO(f), transformed_key=tk)
        kp.password = None
        kp.keyfile = p
        b = io.BytesIO()
        kp.save(b)
        R.decode(b.getvalue(), comp=R.composite(None, data))
        return 'xml' if b'<Key' in data[:300] else '%d' % len(data) if len(data) in (32, 64) else 'hashed'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bad(case):
    v, name = case
    data = refused(False)[name]
    f, tk, comp = file_for(v, None, v2(KEY))
    for kf in (io.BytesIO(data),):
        try:
            PyKeePass(io.BytesIO(f), keyfile=kf)
        except Exception as e:
            what = type(e).__name__
        else:
            fail('key file with wrong hash is accepted')
    kp = PyKeePass(io.BytesIO(f), transformed_key=tk)
    kp.keyfile = io.BytesIO(data)
    try:
        b = io.BytesIO()
        kp.save(b)
    except Exception:
        return what
    fail('saving with a key file with wrong hash is accepted')


def passing(case):
    """Every way of passing x every way for the next use; the same object is used for several openings, saves and reloads"""
    v, mode, name, pw = case
    data = ALL[name]
    d = core.scratch()
    cwd = os.getcwd()
    try:
        p = os.path.join(d, 'key file é')
        with open(p, 'wb') as f:
            f.write(data)
        path = os.path.join(d, 'db.kdbx')
        f, tk, comp = file_for(v, pw, data)
        with open(path, 'wb') as h:
            h.write(f)
        kf = MODES[mode](p, data)
        once = mode in ('one way', 'buffered one way', 'minimal')
        kp = PyKeePass(path, password=pw, keyfile=kf)
        eq(kp.transformed_key, tk, 'transformed key')
        for step in range(3):
            kp.entries[0].title = 'step %d' % step
            kp.save()
            with open(path, 'rb') as h:
                db = R.decode(h.read(), comp=comp)
            eq(db.xml.findtext('Root/Group/Entry/String[Key="Title"]/Value'), 'step %d' % step, 'saved title')
            kp.reload()
            eq(kp.entries[0].title, 'step %d' % step, 'title after reload')
            b = io.BytesIO()
            kp.save(b)
            R.decode(b.getvalue(), comp=comp)
        if not once:
            if hasattr(kf, 'seek'):
                kf.seek(min(1, len(data)))
            k2 = PyKeePass(path, password=pw, keyfile=kf)
            eq(k2.entries[0].title, 'step 2', 'second opening with the same key file object')
            kp.save()
            k2.reload()
        # as new credentials
        kf = MODES[mode](p, data)
        kp.password = 'other'
        kp.keyfile = kf
        kp.save()
        kp.save()
        kp.reload()
        with open(path, 'rb') as h:
            R.decode(h.read(), comp=R.composite('other', data))
        return mode
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def distinct(case):
    """Different key files are different keys (unless they denote the same 32 bytes)"""
    v, a = case
    names = SAMPLE
    f, tk, comp = file_for(v, None, ALL[a])
    n = 0
    for b in names:
        same = R.keyfile_component(ALL[a]) == R.keyfile_component(ALL[b])
        try:
            PyKeePass(io.BytesIO(f), keyfile=io.BytesIO(ALL[b]))
        except CredentialsError:
            expect(not same, lambda: 'key file %r is not accepted for %r' % (b, a))
        else:
            expect(same, lambda: 'key file %r opens a database of key file %r' % (b, a))
            n += 1
    return '%d equal' % n


ALL = contents(True)
SAMPLE = [n for n in ALL if len(ALL[n]) < 2000][::23] + ['hex lower', 'hex upper', 'hex mixed', 'v1 0 plain 1.00', 'v2 0 groups True', 'len 0 zero']
PASS = ['hex lower', 'v1 0 plain 1.00', 'v2 0 groups True', 'len 0 zero', 'len 32 det', 'len 33 det', 'len 65536 det', 'len 1 text']
REPLAY = dict(meaning=meaning, refused=bad, passing=passing, distinct=distinct)


def main(chk):
    chk.assumptions += ['XML files with an unknown key file version or unreadable data are not judged']
    names = contents(chk.quick)
    ALL.update(names)
    chk.run_cases('meaning', [(v, n) for v in (3, 4) for n in names], meaning, 'key file contents x password, against files encrypted by the independent implementation')
    chk.run_cases('refused', [(v, n) for v in (3, 4) for n in refused(chk.quick)], bad, 'version 2 key files with every wrong digit in data or hash')
    chk.run_cases('passing', [(v, m, n, pw) for v in (3, 4) for m in MODES for n in PASS for pw in (None, 'pw')], passing, 'ways of passing x contents; open, save, reload repeatedly')
    chk.run_cases('distinct', [(v, n) for v in (3, 4) for n in SAMPLE], distinct, 'pairs of key files')
