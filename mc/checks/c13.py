"""C13: recycle bin.  Breadth-first search over histories against the tree model."""
import base64

from .. import content as C
from .. import scale
from ..core import eq, expect
from ..world import Start, machine, walk

LEVEL = 'model_checking'
LABELS = ['root', 'g1', 'g2', 'g3', 'rb', 'e0', 'e1', 'e2', 'e3', 'fresh']


def doc(v, rb):
    e = lambda l, t, **kw: C.entry(v, l, dict(Title=t, UserName='u', Password='p'), **kw)
    hist = [C.entry(v, 'e1', dict(Title='old', UserName='u', Password='x'))]
    g2 = C.group(v, 'g2', 'B', e('e2', 't'))
    g1 = C.group(v, 'g1', 'A', e('e1', 't', history=hist, custom=[('k', 'v', True)], tags='a;b'), g2)
    kids = [e('e0', 't'), g1]
    bin_ = C.group(v, 'rb', 'Trash', e('e3', 't'), C.group(v, 'g3', 'old'))
    if rb == 'root':
        kids.append(bin_)
    elif rb == 'nested':
        g2.append(bin_)
    uid = C.uid('rb') if rb in ('root', 'nested', 'dead') else None
    # a group that merely has the bin's usual name is not the bin
    kids.append(C.group(v, 'g4', 'Recycle Bin'))
    return C.document(v, C.group(v, 'root', 'Root', *kids), recyclebin=uid)


LABELS.append('g4')
STARTS = {(n, v): Start(doc(v, n), version=v) for n in ('none', 'root', 'nested', 'dead') for v in (3, 4)}


def ops(w):
    gs, es = w.groups(), w.entries()
    out = [('reload',)]
    rb = next((w.name(g['uuid']) for g in walk(w.m['root']) if g['uuid'] == w.m['recyclebin']), None)
    for x in gs[:7] + es[:5]:
        out.append(('trash', x))
        if x != 'root':
            out.append(('delete', x))
    if rb:
        out.append(('empty', rb))
        out.append(('set', rb, 'name', 'renamed'))
        for g in gs[:5]:
            out.append(('move_group', rb, g))
        n = w.node(rb)
        for e in n['entries']:
            out.append(('move_entry', w.name(e['uuid']), 'root'))
        for g in n['groups']:
            out.append(('move_group', w.name(g['uuid']), 'root'))
        out.append(('add_entry', rb, 'x'))
        out.append(('add_group', rb, 'x'))
    if 'g1' in gs:
        out.append(('empty', 'g1'))
        out.append(('set', 'g1', 'name', 'Recycle Bin'))
    out.append(('empty', 'root'))
    out.append(('add_entry', 'root', 'x'))
    return out


def extra(w, op, notes):
    rb = w.kp.recyclebin_group
    live = {g['uuid'] for g in walk(w.m['root'])}
    eq(rb.uuid.hex if rb is not None else None, w.m['recyclebin'] if w.m['recyclebin'] in live else None, 'recyclebin_group')
    if rb is not None:
        expect(len(w.kp.find_groups(uuid=rb.uuid)) == 1, 'more than one recycle bin')
    if w.m['recyclebin']:
        db = w.check_saved()
        u = db.xml.findtext('Meta/RecycleBinUUID')
        eq(base64.b64decode(u).hex(), w.m['recyclebin'], 'registered recycle bin in the file')


PARTS = [('%s-v%d' % k, k) for k in STARTS]
REPLAY = {p: machine(STARTS[k], LABELS, ops, extra=extra) for p, k in PARTS}
REPLAY['scale'] = scale.run_script


def big():
    full = scale.t(entries=4, groups=3, bin_entries=150, bin_groups=130)
    none = scale.t(entries=150, groups=130)
    R = ('reload',)
    for v in (3, 4):
        yield v, full, (('empty', 'rb'), R, ('trash', 'e0'), ('trash', 'g0')), True
        yield v, full, (('trash', 'e0'), ('trash', 'g0'), ('trash', 'b149'), ('trash', 'bg129'), ('move_entry', 'b140', 'root'), ('delete', 'bg120'), R), False
        yield v, none, tuple(('trash', 'e%d' % i) for i in range(0, 150, 6)) + tuple(('trash', 'g%d' % i) for i in range(0, 130, 6)) + (R, ('trash', 'root')), False
        yield v, none, (('trash', 'e0'), ('empty', 'n0'), ('trash', 'e149'), ('delete', 'n0'), ('trash', 'g100'), R), False


def main(chk):
    chk.run_cases('scale', big(), scale.run_script, 'scripts on a bin with 150 entries and 130 groups, and on filling one', chunk=1)
    for p, (n, v) in PARTS:
        chk.explore(p, REPLAY[p], (3 if v == 4 and n in ('none', 'root') else 2) + (0 if chk.quick else 1), dedupe_from=2)
