"""C23: element handles.  All pairs of handles of an element, obtained in every way the API offers, at every step of all operation histories;
all pairs of identifiers from a set built to provoke collisions."""
import itertools
import uuid
from datetime import datetime, timedelta, timezone

from .. import content as C
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail
from ..domains import TEXT
from ..world import Start, machine

LEVEL = 'model_checking'
LABELS = ['root', 'g1', 'g2', 'e0', 'e1', 'e2', 'rb', 'fresh']
T = datetime(2020, 1, 1, tzinfo=timezone.utc)


def doc(v, same):
    """same: elements that agree in everything but the identifier"""
    F = dict(Title='t', UserName='u', Password='PASS-7')
    h = [C.entry(v, 'e0', F, mtime=T + timedelta(seconds=i), binaries=[('f', 0)]) for i in range(2)]
    e0 = C.entry(v, 'e0', F, history=h, binaries=[('f', 0), ('f', 0)] if same else [('f', 0), ('g', 1)])
    e1 = C.entry(v, 'e1', F if same else dict(F, Title='t1'), binaries=[('f', 0)])
    e2 = C.entry(v, 'e2', F if same else dict(F, Title='t2'))
    g2 = C.group(v, 'g2', 'G' if same else 'H', e2)
    return C.document(v, C.group(v, 'root', 'G' if same else 'Root', e0, e1, C.group(v, 'g1', 'G', g2)), binaries3=[(b'one', True), (b'two', True)])


STARTS = {(v, s): Start(doc(v, s), version=v, binaries=[(1, b'one'), (1, b'two')] if v == 4 else ()) for v in (3, 4) for s in (False, True)}


def ways(kp):
    """(identity, handle) of every element, by every way to get one"""
    out = []

    def go(g, parent):
        out.append((('group', g.uuid.hex), g))
        if parent is not None:
            out.append((('group', parent.uuid.hex), g.parentgroup))
            out.append((('group', parent.uuid.hex), g.group))
        for e in g.entries:
            out.append((('entry', e.uuid.hex), e))
            out.append((('group', g.uuid.hex), e.parentgroup))
            out.append((('group', g.uuid.hex), e.group))
            for i, h in enumerate(e.history):
                out.append((('snapshot', h.uuid.hex, h.mtime), h))
                out.append((('group', g.uuid.hex), h.group)) if getattr(h, 'group', None) is not None and h.group.uuid == g.uuid else None
                for a in h.attachments:
                    out.append((('snapshot', h.uuid.hex, h.mtime), a.entry))
            for a in e.attachments:
                out.append((('entry', e.uuid.hex), a.entry))
        for s in g.subgroups:
            go(s, g)
    go(kp.root_group, None)
    for g in kp.groups + kp.find_groups():
        out.append((('group', g.uuid.hex), g))
        out.append((('group', g.uuid.hex), kp.find_groups(uuid=g.uuid, first=True)))
    for e in kp.entries + kp.find_entries(history=True):
        k = ('snapshot', e.uuid.hex, e.mtime) if e.is_a_history_entry else ('entry', e.uuid.hex)
        out.append((k, e))
        if not e.is_a_history_entry:
            out.append((('entry', e.uuid.hex), kp.find_entries(uuid=e.uuid, first=True)))
        for a in e.attachments:
            out.append((k, a.entry))
    rb = kp.recyclebin_group
    if rb is not None:
        out.append((('group', rb.uuid.hex), rb))
    return out


OTHER = (None, 0, 'Entry', b'', object(), uuid.UUID(int=0), T, [])


def relate(hs, what):
    reps = list({k: (k, a) for k, a in hs}.values())        # one handle of each element against all handles of all elements
    for (ka, a), (kb, b) in itertools.product(reps, hs):
        same = ka == kb
        expect((a == b) is same, lambda: '%s: handles of %s and %s compare %s' % (what, ka, kb, 'equal' if not same else 'different'), 'equality')
        expect((a != b) is not same, lambda: '%s: handles of %s and %s: != disagrees with ==' % (what, ka, kb), 'inequality')
        if same:
            expect(hash(a) == hash(b), lambda: '%s: two handles of %s have different hash values' % (what, ka), 'hash')
    for k, a in reps:
        mine = (a.uuid, str(a.uuid), a.uuid.hex, a.uuid.bytes, hash(a), getattr(a, 'name', 'x'), getattr(a, 'title', 'x'), a.mtime)
        for o in OTHER + mine:
            expect((a == o) is False and (a != o) is True and (o == a) is False, lambda: '%s: a handle equals %r' % (what, o), 'other types')
    # sets and dictionaries
    eq(len({a for _, a in hs}), len({k for k, _ in hs}), '%s: number of elements in a set of handles' % what)


def shown(w):
    """String forms: total, and those of distinct paths are distinct"""
    kp = w.kp
    for g in kp.groups:
        for f in (str, repr):
            s = f(g)
            expect(isinstance(s, str) and s.startswith('Group'), 'string form of a group: %r' % s)
            expect(g.is_root_group or (g.name or '') in s, lambda: 'string form of group %r: %r' % (g.name, s))
    for e in kp.find_entries(history=True):
        for f in (str, repr):
            s = f(e)
            expect(isinstance(s, str) and s.startswith('HistoryEntry' if e.is_a_history_entry else 'Entry'), 'string form of an entry: %r' % s)
            expect((e.title or '') in s and (e.username or '') in s, lambda: 'string form of entry %r: %r' % (e.title, s))
            expect(not e.password or e.password in (e.title or '') + (e.username or '') + ''.join(x or '' for x in e.path) + 'HistoryEntry: Group' or e.password not in s, 'the string form shows the password')
        for a in e.attachments:
            expect((a.filename or '') in str(a) and str(a.id) in str(a), 'string form of an attachment: %r' % str(a))


def ops(w):
    es, gs = w.entries(), w.groups()
    out = [('reload',), ('add_entry', 'root', 't', 'u', 'PASS-7', None, None, None, None, None, True), ('add_group', 'root', 'G'), ('add_binary', b'x')]
    for e in es[:3]:
        out += [('set', e, 'title', 'new'), ('set', e, 'title', ''), ('set', e, 'username', ''), ('set', e, 'mtime', T), ('touch', e, True), ('delete', e), ('trash', e)]
        if 'fresh' not in es + gs:
            out.append(('set_uuid', e, 'fresh'))
        for g in gs[:4]:
            out.append(('move_entry', e, g))
        if w.node(e)['history']:
            out.append(('delete_history', e, 0))
        out += [('reindex', e, 0), ('save_history', e)]
        if w.m['binaries']:
            out.append(('attach', e, 0, 'f'))
    for g in gs[:4]:
        out += [('set', g, 'name', 'new'), ('set', g, 'name', '')]
        if g != 'root':
            out += [('move_group', g, 'root'), ('delete', g), ('trash', g)]
            if 'fresh' not in es + gs:
                out.append(('set_uuid', g, 'fresh'))
    return out


def extra(w, op, notes):
    hs = ways(w.kp)
    held = []
    for l, h in w.h.items():
        held.append((('entry' if 'title' in w.node(l) else 'group', w.node(l)['uuid']), h))
    relate(hs + held, 'after %s' % (op[0] if op else 'opening'))
    shown(w)


# ---- identifiers
M = (1 << 61) - 1        # modulus of Python's integer hash


def idents():
    base = [1, 2, M - 1, M, M + 1, 2 * M, 2 * M + 1, 5 * M + 7, 7, (1 << 64), (1 << 64) + 1, 1 << 127, (1 << 128) - 1, (1 << 128) - 2, ((1 << 128) - 1) // M * M, R_INT, R_INT ^ 1, R_INT ^ (1 << 127),
            R_INT + M if R_INT + M < 1 << 128 else R_INT - M, (R_INT >> 64) | ((R_INT & ((1 << 64) - 1)) << 64)]
    return [uuid.UUID(int=x) for x in base]


R_INT = C.uid('some').int


def run_ident(case):
    """Two elements with these identifiers are different, whatever they are"""
    v, a, b, kind = case
    s = STARTS[v, False]
    kp = K.open_bytes(s.data, s.tk)
    es = [kp.find_entries(uuid=C.uid(l), first=True) for l in ('e0', 'e1')] if kind == 'entry' else [kp.find_groups(uuid=C.uid(l), first=True) for l in ('g1', 'g2')]
    es[0].uuid, es[1].uuid = uuid.UUID(int=a), uuid.UUID(int=b)
    for rnd in range(2):
        hs = ways(kp)
        relate(hs, 'identifiers %032x and %032x' % (a, b))
        find = kp.find_entries if kind == 'entry' else kp.find_groups
        for x in (a, b):
            r = find(uuid=uuid.UUID(int=x))
            expect(len(r) == 1 and r[0].uuid.int == x, 'search by identifier')
        kp = K.open_bytes(K.save_bytes(kp, s.tk), s.tk)
    # operations that have to tell one element from another
    g1, g2 = (kp.find_groups(uuid=uuid.UUID(int=x), first=True) for x in (a, b)) if kind == 'group' else (None, None)
    if kind == 'group':
        kp.move_group(g2, kp.root_group)
        kp.move_group(g2, g1)
        eq(g2.parentgroup.uuid.int, a, 'parent of the moved group')
        kp.move_group(g2, kp.root_group)
        kp.trash_group(g1)
        kp.trash_group(g2)
        eq(sorted(x.uuid.int for x in kp.recyclebin_group.subgroups), sorted((a, b)), 'trashed groups')
    else:
        e = kp.find_entries(uuid=uuid.UUID(int=b), first=True)
        e.reindex(0)
        eq([x.uuid.int for x in kp.root_group.entries], [b, a], 'order after reindex')
        kp.delete_entry(e)
        eq([x.uuid.int for x in kp.root_group.entries], [a], 'entries after delete')
    return 'distinct'


def run_snap(case):
    """Snapshots with these modification times"""
    v, a, b = case
    s = STARTS[v, False]
    kp = K.open_bytes(s.data, s.tk)
    e = kp.find_entries(uuid=C.uid('e0'), first=True)
    e.history[0].mtime, e.history[1].mtime = (T + timedelta(seconds=x) for x in (a, b))
    h = e.history
    expect((h[0] == h[1]) is (a == b), 'equality of snapshots modified at %d and %d s' % (a, b))
    expect(h[0] != e and h[1] != e and e != h[0], 'a snapshot equals its entry')
    expect(h[0] == e.history[0] and hash(h[0]) == hash(e.history[0]), 'two handles of a snapshot differ')
    return 'ok'


def run_text(case):
    """String forms with every text in names, titles and user names"""
    v, text = case
    s = STARTS[v, True]
    kp = K.open_bytes(s.data, s.tk)

    class W:
        pass
    w = W()
    w.kp = kp
    for g in kp.groups:
        g.name = text
        g.notes = text
    for e in kp.entries:
        e.title = text
        e.password = 'PASS-7'
    shown(w)
    for e in kp.entries:
        e.username = text
        for a in e.attachments:
            a.filename = text or 'f'
    shown(w)
    relate(ways(kp), 'text %r' % text[:20])
    return 'ok'


PARTS = [('v%d-%s' % (v, 'alike' if s else 'distinct'), (v, s)) for v, s in STARTS]
REPLAY = {p: machine(STARTS[k], LABELS, ops, extra=extra, structure=False, saved=False) for p, k in PARTS}
REPLAY.update(identifiers=run_ident, snapshots=run_snap, texts=run_text)


def main(chk):
    chk.assumptions += ['snapshots of one entry with the same modification time count as equal (documented in the code)']
    ids = [u.int for u in idents()]
    chk.run_cases('identifiers', [(v, a, b, k) for v in (3, 4) for k in ('entry', 'group') for a, b in (itertools.combinations if chk.quick else itertools.permutations)(ids, 2)], run_ident,
                  'every pair of identifiers (thorough: in both orders) of a set that contains hash collisions x element kind x format')
    secs = (0, 1, -1, 59, 60, 3600, 86400, -86400 * 365, 86400 * 365, 86400 * 366 * 50)
    chk.run_cases('snapshots', [(v, a, b) for v in (3, 4) for a in secs for b in secs], run_snap, 'all pairs of modification times of two snapshots')
    chk.run_cases('texts', [(v, t) for v in (3, 4) for t in TEXT], run_text, 'every text as name, title, user name and file name')
    for p, (v, s) in PARTS:
        chk.explore(p, REPLAY[p], (1 if chk.quick and (v == 4) is not s else 2 if chk.quick else 3), dedupe_from=2)
