"""C09: history snapshots.  Breadth-first search over histories against the reference model."""
import xml.etree.ElementTree as ET
from datetime import datetime, timezone

from .. import content as C
from .. import kp as K
from .. import scale
from ..core import eq, expect
from ..world import Start, entries_of, machine

LEVEL = 'model_checking'
LABELS = ['root', 'g1', 'e0', 'e1']
T1 = datetime(2021, 5, 6, 7, 8, 9, tzinfo=timezone.utc)
F = dict(Title='t', UserName='u', Password='p', URL='http://x', Notes='n', otp='otp://')


def doc(v, nhist):
    # identical snapshots on purpose: same uuid and same times, as save_history without touch produces
    h = [C.entry(v, 'e0', dict(F, Title='h%d' % (i // 2)), custom=[('k', 'v%d' % i, i % 2 == 0)], tags='x', binaries=[('f', i % 2)])
         for i in range(nhist)]
    e0 = C.entry(v, 'e0', F, custom=[('k', 'v', True), ('q', 'w', None)], tags='a;b', binaries=[('f', 0), ('g', 1)],
                 history=h if nhist else None)
    # content the library has no attribute for
    e0.append(C.el('QualityCheck', 'False', Reason='r'))
    e0.append(C.el('CustomData', None, C.el('Item', None, C.el('Key', 'ck'), C.el('Value', 'cv'))))
    e0.find('String').set('Extra', '1')
    e0.find('AutoType').append(C.el('Association', None, C.el('Window', 'w2'), C.el('KeystrokeSequence', '{TAB}')))
    e1 = C.entry(v, 'e1', F, history=[] if nhist else None)
    return C.document(v, C.group(v, 'root', 'Root', e0, C.group(v, 'g1', 'G', e1)), binaries3=[(b'one', True), (b'two', False)])


STARTS = {(n, v): Start(doc(v, n), version=v, binaries=[(1, b'one'), (0, b'two')] if v == 4 else ()) for n in (0, 3, 12) for v in (3, 4)}


def ops(w):
    out = [('reload',)]
    es = w.entries()
    for e in es[:3]:
        out.append(('save_history', e))
        n = len(w.node(e)['history'])
        for i in sorted({0, 1, n // 2, n - 2, n - 1}):
            if 0 <= i < n:
                out.append(('delete_history', e, i, ('entry', 'handle', 'kp')[i % 3]))
        if n:
            out.append(('delete_history', e, 'all'))
    for e in es[:1]:
        out += [('set', e, 'title', 'T2'), ('set', e, 'password', 'P2'), ('set', e, 'notes', ''), ('set', e, 'tags', ('z',)),
                ('set', e, 'icon', '7'), ('set', e, 'mtime', T1), ('set', e, 'expires', True), ('set', e, 'autotype_sequence', '{X}'),
                ('prop', e, 'k', 'v2', False), ('prop', e, 'new', 'v3', True), ('delprop', e, 'k'), ('touch', e, True),
                ('attach', e, 1, 'h'), ('move_entry', e, 'g1' if 'g1' in w.groups() else 'root'), ('trash', e), ('set_uuid', e, 'fresh')]
        if w.node(e)['attachments']:
            out += [('detach', e, 0), ('attachment_set', e, 0, 'filename', 'nf')]
    if w.m['binaries']:
        out.append(('delete_binary', 0))
    if len(es) > 1:
        out += [('set', es[1], 'title', 'other'), ('delete', es[1])]
    if 'g1' in w.groups():
        out.append(('move_group', 'g1', 'root'))
    out.append(('add_entry', 'root', 'a', 'b'))
    return out


def before(w, op):
    """Snapshot handles taken before the step"""
    return [(h, K.obs_entry(h, False)) for e in w.kp.entries for h in e.history]


def pieces(e):
    """The child elements of an entry but its history, in canonical form"""
    return sorted(ET.canonicalize(ET.tostring(c)) for c in ET.fromstring(e.dump_xml()) if c.tag != 'History')


KEEP = {'set', 'prop', 'delprop', 'touch', 'attach', 'detach', 'attachment_set', 'move_entry', 'move_group', 'trash', 'set_uuid',
        'add_entry', 'save_history'}


def extra(w, op, notes):
    kp = w.kp
    if op and op[0] in KEEP:
        for h, old in notes:
            eq(K.obs_entry(h, False), old, 'snapshot handle after %s' % op[0])
            expect(h.is_a_history_entry, 'is_a_history_entry of a snapshot')
    if op and op[0] == 'save_history':
        e = w.h[op[1]]
        eq(pieces(e.history[-1]), pieces(e), 'everything in the snapshot')
    cur = sorted(e['uuid'] for e in entries_of(w.m['root']))
    eq(sorted(e.uuid.hex for e in kp.find_entries()), cur, 'find_entries()')
    every = sorted(e['uuid'] for e in w.all_entries())
    got = kp.find_entries(history=True)
    eq(sorted(e.uuid.hex for e in got), every, 'find_entries(history=True)')
    eq(sum(e.is_a_history_entry for e in got), len(every) - len(cur), 'is_a_history_entry')
    for e in kp.entries:
        expect(not e.is_a_history_entry, 'is_a_history_entry of a current entry')


PARTS = [('h%d-v%d' % k, k) for k in STARTS]
REPLAY = {p: machine(STARTS[k], LABELS, ops, before=before, extra=extra, structure=False) for p, k in PARTS}
REPLAY['scale'] = scale.run_script


def big():
    R = ('reload',)
    grow = tuple(x for i in range(24) for x in (('set', 'e0', 'notes', 'edit %d' % i), ('save_history', 'e0')))
    for v in (3, 4):
        for n in (9, 10, 49, 99, 127, 255, 499):
            yield v, scale.t(entries=2, history=n), (('save_history', 'e0'), ('set', 'e0', 'title', 'x'), ('save_history', 'e0'), ('delete_history', 'e0', n), ('touch', 'e0', True), ('save_history', 'e0'), R), True
        # limits another program put into the database do not change what the calls do
        for k, val in (('HistoryMaxItems', '-1'), ('HistoryMaxItems', '0'), ('HistoryMaxItems', '1'), ('HistoryMaxItems', '10'), ('HistoryMaxItems', '20'), ('HistoryMaxSize', '0'),
                       ('HistoryMaxSize', '1024'), ('MaintenanceHistoryDays', '0'), ('MaintenanceHistoryDays', '365')):
            yield v, scale.t(entries=2, history=1, meta=((k, val),)), grow[:60] + (R, ('delete_history', 'e0', 3)), False
        yield v, scale.t(entries=2), grow + grow + grow + grow + grow + (R, ('delete_history', 'e0', 5), ('delete_history', 'e0', 'all')), False


def main(chk):
    chk.run_cases('scale', big(), scale.run_script, 'up to 500 snapshots of one entry; history limits in the metadata', chunk=1)
    for p, (n, v) in PARTS:
        chk.explore(p, REPLAY[p], (3 if v == 4 and n == 0 else 2) + (0 if chk.quick else 1), dedupe_from=2)
