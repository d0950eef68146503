"""C08: binaries and attachments.  Breadth-first search over histories against the reference model."""
from .. import content as C
from .. import kp as K
from .. import refkdbx as R
from .. import scale
from ..core import eq, expect
from ..world import Start, entries_of, machine

LEVEL = 'model_checking'
LABELS = ['root', 'g1', 'e0', 'e1', 'e2']
D = [b'', b'\x00\xff bin', b'text one', b'text one']      # two equal contents, an empty one


def small(v):
    h = [C.entry(v, 'e0', dict(Title='h', UserName='u', Password='p'), binaries=[('h.bin', 1), ('h0', 0)])]
    e0 = C.entry(v, 'e0', dict(Title='t', UserName='u', Password='p'), binaries=[('a.bin', 1), ('b.txt', 2)], history=h)
    e1 = C.entry(v, 'e1', dict(Title='s', UserName='u', Password='p'), binaries=[('a.bin', 0)])
    return C.document(v, C.group(v, 'root', 'Root', e0, C.group(v, 'g1', 'G', e1)), binaries3=[(x, (True, None, False)[i]) for i, x in enumerate(D[:3])])


def many(v, n=12):
    """Two-digit ids: 10 > 9 but '10' < '9'"""
    data = [b'data %d' % i for i in range(n)]
    h = [C.entry(v, 'e0', dict(Title='h', UserName='u', Password='p'), binaries=[('h%d' % i, i) for i in (0, 2, 9, 10, 11)])]
    e0 = C.entry(v, 'e0', dict(Title='t', UserName='u', Password='p'), binaries=[('f%d' % i, i) for i in range(n)], history=h)
    e1 = C.entry(v, 'e1', dict(Title='s', UserName='u', Password='p'), binaries=[('x', 11), ('y', 1), ('z', 10), ('x', 11)])
    return C.document(v, C.group(v, 'root', 'Root', e0, C.group(v, 'g1', 'G', e1)), binaries3=[(x, True) for x in data])


def empty(v):
    e0 = C.entry(v, 'e0', dict(Title='t', UserName='u', Password='p'))
    return C.document(v, C.group(v, 'root', 'Root', e0, C.group(v, 'g1', 'G')))


BINS = dict(small=[(i % 2, x) for i, x in enumerate(D[:3])], many=[(1, b'data %d' % i) for i in range(12)], empty=[])
STARTS = {(n, v): Start(f(v), version=v, binaries=BINS[n] if v == 4 else ()) for n, f in
          (('small', small), ('many', many), ('empty', empty)) for v in (3, 4)}


def ops_small(w):
    nb = len(w.m['binaries'])
    ops = [('reload',), ('add_binary', D[1]), ('add_binary', D[0], False), ('add_binary', D[3], True, False)]
    for i in list(range(nb)) + [nb, -1]:
        ops.append(('delete_binary', i))
    es = w.entries()
    for e in es:
        for i in range(nb):
            ops.append(('attach', e, i, 'f%d' % i))
        n = w.node(e)
        for k in range(min(3, len(n['attachments']))):
            ops.append(('detach', e, k, 'entry' if k % 2 else 'attachment'))
            ops.append(('attachment_set', e, k, 'filename', 'new name'))
            if nb:
                ops.append(('attachment_set', e, k, 'id', nb - 1))
        ops.append(('save_history', e))
        if n['history']:
            ops.append(('delete_history', e, 0))
            ops.append(('delete_history', e, 'all'))
    if es:
        ops.append(('delete', es[0]))
        ops.append(('trash', es[-1]))
    ops.append(('attach', es[0], nb, 'dangling')) if es else None
    return ops


def ops_many(w):
    nb = len(w.m['binaries'])
    ops = [('reload',), ('add_binary', b'new'), ('save_history', 'e0'), ('save_history', 'e1')]
    for i in range(nb + 1):
        ops.append(('delete_binary', i))
        ops.append(('attach', 'e1', i, 'n')) if i < nb else None
    for i in (-1, -nb, -nb - 1, 100):
        ops.append(('delete_binary', i))
    return ops


ALPH = dict(small=ops_small, many=ops_many, empty=ops_small)
PARTS = [('%s-v%d' % (s, v), s, v) for s in ALPH for v in (3, 4)]



def before(w, op):
    """Attachment handles taken before a binary is deleted"""
    if op and op[0] in ('delete_binary', 'add_binary'):
        return [(a, a.id, K.obs_attachment(a)) for e in w.kp.entries for x in [e] + e.history for a in x.attachments]


def extra(w, op, notes):
    kp = w.kp
    cur = [a for e in entries_of(w.m['root']) for a in e['attachments']]
    allh = [a for e in w.all_entries() for a in e['attachments']]
    eq(sorted(map(K.obs_attachment, kp.attachments), key=repr), sorted(cur, key=repr), 'attachments of the database')
    eq(sorted(map(K.obs_attachment, kp.find_attachments()), key=repr), sorted(cur, key=repr), 'find_attachments()')
    eq(sorted(map(K.obs_attachment, kp.find_attachments(history=True)), key=repr), sorted(allh, key=repr), 'find_attachments(history=True)')
    for i in range(len(w.m['binaries'])):
        eq(sorted(map(K.obs_attachment, kp.find_attachments(id=i, history=True)), key=repr),
           sorted([a for a in allh if a[1] == i], key=repr), 'attachments of binary %d' % i)
    for e in kp.entries:
        for x in [e] + e.history:
            for a in x.attachments:
                expect(a.entry.uuid == e.uuid and a.binary == a.data if K.obs_attachment(a)[2] != 'dangling' else True,
                       'entry or binary of an attachment')
    for a, i, old in notes or ():
        if op[0] == 'add_binary' or i != op[1]:
            got = K.obs_attachment(a)
            if old[2] != 'dangling':
                expect((got[0], got[2]) == (old[0], old[2]), lambda: 'attachment handle %r became %r' % (old, got))


REPLAY = {p: machine(STARTS[s, v], LABELS, ALPH[s], structure=False, before=before, extra=extra) for p, s, v in PARTS}


# ---- binary values: every class of data x flags, through add/attach/save/reload and interoperability
def values():
    for v in (3, 4):
        for flag in ((), (True,), (False,), (True, True), (True, False), (False, False)):
            for n in (0, 1, 2, 3, 15, 16, 17, 255, 256, 4096, 65535, 65536):
                for kind in ('zero', 'ff', 'det', 'text', 'gz'):
                    yield v, flag, n, kind
        for flag in ((True,), (False,)):
            for n in (100000, 1 << 18, 1 << 19, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, 3 << 20, 17 << 20):
                for kind in ('zero', 'det', 'text') if n < 1 << 21 else ('zero', 'det'):
                    yield v, flag, n, kind


def data_of(n, kind):
    return {'zero': bytes(n), 'ff': b'\xff' * n, 'det': R.det('bin', n), 'text': (b'line\r\n' * (n // 6 + 1))[:n],
            'gz': R.gz(bytes(n))}[kind]


def run_value(case):
    v, flag, n, kind = case
    from ..world import World
    d = data_of(n, kind)
    w = World(STARTS['small', v], LABELS)
    for op in (('add_binary', d) + tuple(flag), ('attach', 'e1', 3, 'f'), ('reload',), ('delete_binary', 0), ('reload',)):
        w.do(op)
        w.check(structure=False)
    if v == 4:
        protected = flag[1] if len(flag) > 1 else True
        db = w.check_saved()
        if db.binaries[2][0] != int(protected):
            from ..core import fail
            fail('protection flag of the binary is %d' % db.binaries[2][0])
    return 'ok'


REPLAY['values'] = run_value
REPLAY['scale'] = scale.run_script


def big():
    R = ('reload',)
    for v in (3, 4):
        for n in (99, 100, 128, 255, 256, 257, 300):
            s = scale.t(entries=80, binaries=n)
            yield v, s, (('add_binary', b'a'), ('add_binary', b'b'), ('attach', 'e1', n, 'a'), ('attach', 'e2', n + 1, 'b'), ('delete_binary', n - 1), R, ('delete_binary', 0), ('delete_binary', n + 9), R), False
            yield v, s, (('attachment_set', 'e0', 0, 'id', n - 1), ('attachment_set', 'e0', n - 1, 'filename', 'q'), ('detach', 'e0', n - 2), ('delete_binary', 7), ('save_history', 'e0'), ('delete_binary', n - 2), R), False


def main(chk):
    depth = dict(small=2, many=2, empty=4)
    for p, s, v in PARTS:
        chk.explore(p, REPLAY[p], depth[s] + (0 if chk.quick else 1), dedupe_from=2)
    chk.run_cases('scale', big(), scale.run_script, 'up to 300 binaries, 80 references to one of them', chunk=1)
    chk.run_cases('values', values(), run_value, 'every data class x length x add_binary flags x format: add, attach, reload, delete another binary, reload')
