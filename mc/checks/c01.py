"""C01: saving and reopening is lossless.  Text alphabet x slots x configurations, payload sizes around every padding and block
boundary, counts, nesting, and breadth-first search over generations of edit/save/reopen."""
import io
import itertools
import os
import re
import shutil
import zlib
from datetime import datetime, timedelta, timezone

from pykeepass import PyKeePass

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..core import Violation, eq, expect, fail, first_diff
from ..domains import NAMES, TEXT, TEXT_SMALL
from ..world import Start, World, hash_key, machine

LEVEL = 'model_checking'
T1 = datetime(2031, 5, 6, 7, 8, 9, tzinfo=timezone.utc)
LABELS = ['root', 'g1', 'g2', 'e1', 'e2']


def base(v):
    e1 = C.entry(v, 'e1', dict(Title='t', UserName='u', Password='p', URL='l', Notes='n', otp='o'), custom=[('k', 'v', None), ('pk', 'pv', True)],
                 tags='a;b', binaries=[('f', 0)], history=[C.entry(v, 'e1', dict(Title='old', Password='oldpw'), custom=[('hk', 'hv', True)])])
    e2 = C.entry(v, 'e2', dict(Title='t2', Password='p2'))
    return C.document(v, C.group(v, 'root', 'Root', e1, C.group(v, 'g1', 'G1', e2, C.group(v, 'g2', 'G2'), notes='gn')), binaries3=[(b'one', True)])


def confs(full=True):
    out = []
    for v in (3, 4):
        for ci in ('aes256', 'chacha20', 'twofish'):
            for co in (True, False):
                for st in (('salsa20', 'chacha20', 'none') if full else (None,)):
                    for kdf in (('aeskdf',) if v == 3 else ('aeskdf', 'argon2', 'argon2id')):
                        out.append((v, ci, co, st, kdf))
    return out


_starts = {}


def start(conf):
    if conf not in _starts:
        v, ci, co, st, kdf = conf
        kw = dict(version=v, cipher=ci, compression=co, kdf=R.cheap_kdf(kdf))
        if st:
            kw['stream'] = st
        if v == 4:
            kw['binaries'] = [(1, b'one')]
        _starts[conf] = Start(base(v), **kw)
    return _starts[conf]


BASIC = [(v, 'aes256', co, None, 'aeskdf') for v in (3, 4) for co in (True, False)]


def same(w, kp, what):
    got, want = K.observe(kp), w.model_view()
    if got != want:
        raise Violation('%s: %s' % (what, first_diff(got, want)), 'reopened')


def roundtrip(w, tkey, how='stream', gens=2):
    """save / reopen `gens` times; returns the last opened database"""
    kp = w.kp
    prev = None
    d = core.scratch() if how == 'path' else None
    try:
        for g in range(gens):
            if how == 'path':
                p = os.path.join(d, 'f%d.kdbx' % g)
                kp.save(p, transformed_key=tkey)
                same(w, kp, 'open database after saving it')
                with open(p, 'rb') as f:
                    data = f.read()
                kp = PyKeePass(p, transformed_key=tkey)
            else:
                data = K.save_bytes(kp, tkey)
                kp = K.open_bytes(data, tkey)
            same(w, kp, 'database reopened (generation %d, %s)' % (g + 1, how))
            doc = canon_xml(kp)
            expect(prev is None or doc == prev, 'a further save and reopen changed the document')
            prev = doc
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return kp, data


def canon_xml(kp):
    # the hash of the header is not part of the content
    return re.sub(rb'<HeaderHash>[^<]*</HeaderHash>', b'', kp.xml())


SLOTS = [('set', 'e1', a) for a in ('title', 'username', 'password', 'url', 'notes', 'otp', 'autotype_sequence', 'autotype_window')] + [
    ('set', 'e2', a) for a in ('title', 'username', 'password', 'url', 'notes', 'otp')] + [
    ('set', 'g1', 'name'), ('set', 'g1', 'notes'), ('set', 'root', 'name'), ('meta', 'database_name'), ('meta', 'database_description'),
    ('meta', 'default_username'), ('attachment_set', 'e1', 0, 'filename'), ('prop', 'e1', 'k'), ('propp', 'e1', 'pk'), ('propp', 'e2', 'new'),
    ('propname', 'e1'), ('proppname', 'e2')]


def write(w, slot, t):
    k = slot[0]
    if k == 'propp':
        w.do(('prop', slot[1], slot[2], t, True))
    elif k in ('propname', 'proppname'):
        if t:
            w.do(('prop', slot[1], t, 'v', k == 'proppname'))
    else:
        w.do(slot + (t,))


def run_text(case):
    conf, slots, t = case
    w = World(start(conf), LABELS)
    for s in slots:
        write(w, s, t)
    w.check(structure=False)
    roundtrip(w, w.tk)
    return 'same'


def run_conf(case):
    """A full set of edits in a configuration, through path and stream, several generations"""
    conf, how, gens, creds = case
    w = World(start(conf), LABELS)
    edits = [('add_entry', 'root', 'T é', 'u', 'pw', 'http://x', 'line1\nline2', ('x', 'y'), 'otpauth://x', '3'),
             ('add_group', 'g2', 'N', '5', 'nn'), ('add_binary', b'\0\1\2' * 100), ('attach', 'e2', 1, 'f.bin'),
             ('prop', 'e2', 'a key', 'secret', True), ('set', 'e2', 'expires', True), ('set', 'e2', 'expiry_time', T1),
             ('save_history', 'e1'), ('set', 'e1', 'password', 'newpw'), ('trash', 'e2'), ('meta', 'database_name', 'name'),
             ('set', 'e1', 'tags', ('q',)), ('set', 'e1', 'autotype_enabled', False), ('days', 'required', 30)]
    for e in edits:
        w.do(e)
    w.check(structure=False)
    kp, data = roundtrip(w, w.tk, how, gens)
    if creds:
        w.kp.password = 'the password'
        c = list(w.m['credchange'])
        c[0] = w.kp.credchange_date
        w.m['credchange'] = tuple(c)
        b = io.BytesIO()
        w.kp.save(b)
        same(w, PyKeePass(io.BytesIO(b.getvalue()), password='the password'), 'reopened with a new password')
    return 'same'


def run_size(case):
    """Notes of n characters; content either compressible or not"""
    conf, kind, n = case
    w = World(start(conf), LABELS)
    text = filler(kind, n)
    w.do(('set', 'e2', 'notes', text))
    data = K.save_bytes(w.kp, w.tk)
    kp = K.open_bytes(data, w.tk)
    same(w, kp, 'reopened with %d characters of notes' % n)
    db = R.decode(data, tk=w.tk)
    eq(K.ref_observe(db), w.model_view(), 'independent reading')
    same(w, K.open_bytes(K.save_bytes(kp, w.tk), w.tk), 'second generation')
    return '%d blocks' % len(db.blocks)


def filler(kind, n):
    if kind == 'plain':
        return 'x' * n
    # incompressible ASCII: hex digits would compress by half, base85-like 64-letter text by 1/4; what matters is crossing the boundary
    import base64
    return base64.b64encode(R.det('fill', n)).decode()[:n]


def payload_len(conf, kind, n):
    """Length of what is cut into blocks (format 3: after compression; format 4: after compression and encryption)"""
    w = World(start(conf), LABELS)
    w.do(('set', 'e2', 'notes', filler(kind, n)))
    return sum(R.decode(K.save_bytes(w.kp, w.tk), tk=w.tk).blocks)


def boundary_n(case):
    """n with payload_len about `target` (the length is linear in n, up to compression noise): secant steps"""
    conf, kind, target = case
    n0, n1 = target // 2, target
    y0 = payload_len(conf, kind, n0)
    for _ in range(6):
        y1 = payload_len(conf, kind, n1)
        if abs(y1 - target) < 16 and not conf[2] or y1 == target or y1 == y0:
            break
        n2 = n1 + round((target - y1) * (n1 - n0) / (y1 - y0))
        if n2 == n1:
            break
        n0, y0, n1 = n1, y1, n2
    return n1


def run_attachment(case):
    conf, n, kind, comp, prot = case
    w = World(start(conf), LABELS)
    data = bytes(n) if kind == 'zero' else R.det('att', n)
    w.do(('add_binary', data, comp, prot))
    w.do(('attach', 'e2', 1, 'f'))
    w.do(('attach', 'e1', 1, 'f'))
    w.check(structure=False)
    roundtrip(w, w.tk)
    return 'same'


def run_count(case):
    conf, what, n = case
    w = World(start(conf), LABELS)
    for i in range(n):
        if what == 'entries':
            w.do(('add_entry', 'g1', 'title %d' % i, 'u', 'pw%d' % i))
        elif what == 'groups':
            w.do(('add_group', 'g1', 'g%d' % i))
        elif what == 'props':
            w.do(('prop', 'e2', 'key%d' % i, 'value %d' % i, i % 2 == 0))
        elif what == 'binaries':
            w.do(('add_binary', b'%d' % i))
            w.do(('attach', 'e2', i + 1, 'f%d' % i))
        elif what == 'history':
            w.do(('set', 'e2', 'password', 'pw%d' % i))
            w.do(('save_history', 'e2'))
        elif what == 'attachments':
            w.do(('attach', 'e2', 0, 'f%d' % i))
    if what == 'tags':
        w.do(('set', 'e2', 'tags', tuple('tag%d' % i for i in range(n))))
    w.check(structure=False)
    roundtrip(w, w.tk)
    return 'same'


def run_deep(case):
    """Groups nested n deep, looked at without recursion"""
    conf, n = case
    s = start(conf)
    kp = K.open_bytes(s.data, s.tk)
    g = kp.find_groups(name='G2', first=True)
    for i in range(n):
        g = kp.add_group(g, 'n%d' % i)
    kp.add_entry(g, 'deepest', 'u', 'pw')
    k2 = K.open_bytes(K.save_bytes(kp, s.tk), s.tk)
    eq(len(k2.groups), n + 3, 'number of groups')
    e = k2.find_entries(title='deepest', first=True)
    expect(e is not None and e.password == 'pw', 'deepest entry')
    eq(e.path, ['G1', 'G2'] + ['n%d' % i for i in range(n)] + ['deepest'], 'path of the deepest entry')
    return 'same'


def ops_of(w):
    out = [('add_entry', 'root', 'new%d' % w.n, 'u', 'p "&'), ('set', 'e1', 'password', 'changed'), ('set', 'e1', 'notes', ''),
           ('set', 'e1', 'title', ' '), ('set', 'e1', 'notes', '\n'), ('save_history', 'e1'),
           ('prop', 'e1', 'pk', 'x', False), ('delprop', 'e1', 'pk') if 'pk' in w.node('e1')['custom'] else ('prop', 'e1', 'pk', 'back', True),
           ('add_binary', b'bin'), ('reload',)]
    if w.m['binaries']:
        out += [('attach', 'e1', 0, 'again'), ('delete_binary', 0)]
    if len(w.groups()) > 2:
        out += [('move_group', 'g1', 'root'), ('trash', 'e1'), ('empty', 'g1')]
    if 'e2' not in w.entries():
        out = [o for o in out if 'e2' not in o]
    return [o for o in out if all(not (isinstance(x, str) and x in ('e1', 'e2', 'g1')) or x in w.h for x in o)]


def extra(w, op, notes):
    roundtrip(w, w.tk, 'stream', 2)


GEN = {'v%d%s%s' % (c[0], c[1], c[2]): c for c in BASIC + [(4, 'chacha20', True, 'salsa20', 'argon2')]}
REPLAY = {'generations-' + n: machine(start(c), LABELS, ops_of, structure=False, saved=False, extra=extra) for n, c in GEN.items()}
REPLAY.update(text=run_text, text_all=run_text, conf=run_conf, size=run_size, attachment=run_attachment, count=run_count, deep=run_deep)


def main(chk):
    q = chk.quick
    singles = [(c, (s,), t) for c in ((BASIC[0], BASIC[2]) if q else BASIC) for s in SLOTS for t in TEXT]
    chk.run_cases('text', singles, run_text, 'configuration x slot x text alphabet')
    chk.run_cases('text_all', [(c, tuple(SLOTS), t) for c in (confs(False) if q else confs()) for t in TEXT if c[1] != 'twofish' or len(t) < 100],
                  run_text, 'configuration x text alphabet, all slots at once')
    chk.run_cases('conf', [(c, how, 3, True) for c in confs() for how in ('stream', 'path')], run_conf,
                  'version x cipher x compression x inner stream x key derivation x save target, three generations')
    sizes = [(c, k, n) for c in confs(False) for k in ('plain', 'b64') for n in range(0, 40 if q else 300)]
    big = []
    bounds = [(c, 'b64' if c[2] else 'plain', t) for c in BASIC + [(v, 'chacha20', co, None, 'aeskdf') for v in (3, 4) for co in (True, False)]
              for t in ([1 << 20] if q else [1 << 20, 2 << 20, 3 << 20])]
    for i, kind, n in core.pmap(boundary_n, bounds, 1):
        if kind != 'ok':
            chk.report('size', bounds[i], *n)
            continue
        c, k, t = bounds[i]
        span = range(-40, 41) if not q else range(-3, 4) if c[2] or c[1] == 'chacha20' else range(-18, 19)
        big += [(c, k, n + d) for d in span]
    big.sort(key=repr)
    big += [(c, 'plain', n) for c in (BASIC[1], BASIC[3]) for n in (5_000_000, 10_000_000, 10_000_001, 20_000_000)]
    huge = [(c, 'plain', n) for c in (BASIC[0], BASIC[2]) for n in (20_000_000, 70_000_000)] + [(c, 'plain', 70_000_000) for c in (BASIC[1], BASIC[3])]
    if not q:
        big += [((v, 'twofish', False, None, 'aeskdf'), 'plain', (1 << 20) + d) for v in (3, 4) for d in (-2000, 0)]
    chk.run_cases('size', huge + big + sizes, run_size, 'configuration x payload length: every length class modulo the cipher block and all lengths around the 1 MiB block boundary',
                  chunk=2)
    atts = [(c, n, k, co, pr) for c in BASIC for n in list(range(0, 20)) + [255, 256, 257, 4095, 4096, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]
            for k in ('zero', 'random') for co in (True, False) for pr in (True, False) if n < 1 << 20 or (k == 'random' and pr)]
    atts += [(c, 8_000_000, 'random', co, True) for c in BASIC for co in (True, False)]
    chk.run_cases('attachment', atts, run_attachment, 'configuration x attachment size x content x compressed x protected', chunk=2)
    counts = [(c, k, n) for c in BASIC for k in ('entries', 'groups', 'props', 'binaries', 'history', 'attachments', 'tags')
              for n in list(range(0, 14)) + [99, 100, 101] + ([260] if q else [255, 256, 257, 260, 1000]) if (k != 'binaries' and k != 'history') or n < 300]
    chk.run_cases('count', counts, run_count, 'configuration x kind of element x number of them', chunk=2)
    chk.run_cases('deep', [(c, n) for c in BASIC for n in (1, 10, 50, 100, 200, 240, 250, 251, 252, 253, 254, 255, 256, 257, 300, 1000)], run_deep,
                  'configuration x nesting depth', chunk=1)
    for n in GEN:
        chk.explore('generations-' + n, REPLAY['generations-' + n], (2 if q else 3) + (n == 'v4aes256True'))
