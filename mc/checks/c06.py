"""C06: tree operations.  Breadth-first search over all operation histories against the tree model."""
from datetime import datetime, timedelta, timezone

from .. import content as C
from .. import kp as K
from .. import scale
from ..core import eq, expect
from ..domains import NEAR, TEXT
from ..wall import At, clock
from ..world import Start, machine

LEVEL = 'model_checking'


def base(v):
    e = lambda l, t, **kw: C.entry(v, l, dict(Title=t, UserName='u', Password='p'), **kw)
    hist = [C.entry(v, 'e1', dict(Title=t, UserName='u', Password='x')) for t in ('old', 'older')]
    g2 = C.group(v, 'g2', 'Root', e('e3', 't'))     # same name as the root
    g1 = C.group(v, 'g1', 'A', e('e2', 't'), g2)
    g3 = C.group(v, 'g3', 'A')
    # interleaved order of groups and entries below the root, as other programs may write it
    root = C.group(v, 'root', 'Root', e('e0', 't'), g1, e('e1', 's', history=hist), g3)
    return C.document(v, root)


def flat(v):
    root = C.group(v, 'root', 'Root', *[C.entry(v, 'e%d' % i, dict(Title='t%d' % i, UserName='u', Password='p')) for i in range(4)])
    return C.document(v, root)


LABELS = ['root', 'g1', 'g2', 'g3'] + ['e%d' % i for i in range(6)]
STARTS = {(n, v): Start(d(v), version=v) for n, d in (('base', base), ('flat', flat)) for v in (3, 4)}


def ops_small(w):
    """Alphabet for the deep search: one representative per kind of operation and relation"""
    gs, es = w.groups(), w.entries()
    ops = [('reload',)]
    for g in gs[:5]:
        if g in ('root', 'g1', 'g2'):
            ops.append(('add_entry', g, 't'))
            ops.append(('add_group', g, 'A'))
        if g != 'root':
            ops.append(('delete', g))
        if g in ('g1', 'g2'):
            ops.append(('set', g, 'name', '' if g == 'g1' else 'A'))
            ops.append(('empty', g))
        for d in gs[:5]:
            if g != 'root':
                ops.append(('move_group', g, d))
    for e in es[:4]:
        for g in gs[:3]:
            ops.append(('move_entry', e, g))
        n = w.parent(w.node(e))
        for i in {0, len(n['entries']) - 1}:
            ops.append(('reindex', e, i))
    for e in es[:2]:
        ops.append(('delete', e))
        ops.append(('set', e, 'title', 's'))
    return ops


def ops_full(w):
    ops = ops_small(w)
    gs, es = w.groups(), w.entries()
    for g in gs:
        ops.append(('add_entry', g, 't', 'u2'))
        ops.append(('add_entry', g, 't', 'u', 'another', 'url', 'notes', ('tag',), 'otp', '7'))
        ops.append(('add_entry', g, 's', 'u', 'p', None, None, None, None, None, True))
        ops.append(('add_group', g, 'B', '5', 'n'))
        ops.append(('set', g, 'notes', 'n'))
        if g != 'root':
            ops.append(('delete', g, 'handle'))
            ops.append(('set', g, 'name', 'zz'))
        for a in es[:3]:
            for b in es[:3]:
                if a != b:
                    ops.append(('append', g, a, b))
    for e in es:
        ops.append(('delete', e, 'handle'))
        ops.append(('set', e, 'title', 't'))
        ops.append(('set', e, 'username', 'u'))
        ops.append(('save_history', e))
        ops.append(('touch', e, True))
        for i in range(min(2, len(w.node(e)['history']))):
            ops.append(('delete_history', e, i, 'handle'))
        ops.append(('prop', e, 'k', 'v'))
    return ops


def ops_order(w):
    ops = [('reload',), ('add_entry', 'root', 'x'), ('add_group', 'root', 'G'), ('set', 'root', 'name', 'r'),
           ('set', 'root', 'notes', 'n')]
    for e in w.entries():
        p = w.parent(w.node(e))
        for i in range(len(p['entries'])):
            ops.append(('reindex', e, i))
        ops.append(('delete', e))
        ops.append(('set', e, 'title', 'x'))
        for g in w.groups():
            ops.append(('move_entry', e, g))
    return ops


ALPH = dict(small=ops_small, full=ops_full, order=ops_order)
PARTS = [('%s-%s-v%d' % (a, s, v), s, v, a) for s, a in (('base', 'small'), ('base', 'full'), ('flat', 'order')) for v in (3, 4)]
REPLAY = {p: machine(STARTS[s, v], LABELS, ALPH[a]) for p, s, v, a in PARTS}
REPLAY['scale'] = scale.run_script


def run_near(case):
    """An entry is refused exactly if one with the same title and user name is directly in the group"""
    v, kind, t1, t2 = case
    kp = K.open_bytes(STARTS['flat', v].data, STARTS['flat', v].tk)
    first = lambda x: (x, 'u') if kind == 'title' else ('t', x)
    g = kp.add_group(kp.root_group, 'G')
    sub = kp.add_group(g, 'S')
    side = kp.add_group(kp.root_group, 'G')
    a = kp.add_entry(g, *first(t1), 'p')
    K.open_bytes(K.save_bytes(kp, STARTS['flat', v].tk), STARTS['flat', v].tk)

    def add(where, **kw):
        before = kp.xml()
        try:
            e = kp.add_entry(where, *first(t2), 'p', **kw)
        except Exception as x:
            expect(kp.xml() == before, 'a refused entry changed the database')
            return False
        eq(((e.title or ''), (e.username or '')), first(t2), 'title and user name of the added entry')
        expect(e in where.entries, 'the added entry is not in its group')
        return True
    expect(add(sub) and add(side) and add(kp.root_group), lambda: 'entry %a was refused where there is none like it' % (first(t2),))
    eq(add(g), t1 != t2, 'entry %a added to a group with an entry %a' % (first(t2)[kind != 'title'][:30], first(t1)[kind != 'title'][:30]))
    eq(add(g), False, 'entry added again')
    expect(add(g, force_creation=True), 'entry refused although creation was forced')
    # only the present entries count: not former titles, not moved or deleted entries
    for e in list(g.entries):
        if e == a:
            continue
        e.delete()
    a.save_history()
    a.title, a.username = 'now', 'different'
    expect(add(g), 'entry refused because of a snapshot')
    for e in list(g.entries):
        kp.move_entry(e, side)
    expect(add(g), 'entry refused because of entries moved away')
    for e in list(g.entries):
        kp.trash_entry(e)
    expect(add(g), 'entry refused because of a trashed entry')
    eq(add(g), False, 'entry added again at the end')
    return 'equal' if t1 == t2 else 'different'


REPLAY['duplicates'] = run_near


def run_clock(case):
    """Identifiers are unique whatever the clock shows: coarse, standing still for a while, set back"""
    v, kinds, per, back = case
    clock()
    kp = K.open_bytes(STARTS['flat', v].data, STARTS['flat', v].tk)
    seen = [x.uuid for x in kp.groups + kp.entries]
    T = datetime(2024, 2, 29, 12, tzinfo=timezone.utc)
    for rnd, t in enumerate([T] + [T + timedelta(seconds=b) for b in back]):
        with At(t, per):
            for i in range(24):
                k = kinds[i % len(kinds)]
                if k == 'entry':
                    x = kp.add_entry(kp.root_group, 'n', 'u%d-%d' % (rnd, i), 'p')
                elif k == 'group':
                    x = kp.add_group(kp.root_group, 'g')
                elif k == 'trash':
                    kp.trash_entry(kp.add_entry(kp.root_group, 'n', 'x%d-%d' % (rnd, i), 'p'))
                    x = kp.recyclebin_group
                    kp.delete_group(x)
                    continue
                seen.append(x.uuid)
    expect(len(set(seen)) == len(seen), 'two elements have the same identifier')
    now = [x.uuid for x in kp.groups + kp.entries]
    eq(len(set(now)), len(now), 'number of distinct identifiers')
    eq(set(now), set(seen), 'identifiers')
    return 'unique'


REPLAY['clock'] = run_clock


def big():
    wide, deep = scale.t(entries=160, groups=130), scale.t(entries=2, depth=130)
    nest = scale.t(entries=2, bin_entries=140, bin_groups=130)
    R = ('reload',)
    for v in (3, 4):
        yield v, nest, (('empty', 'rb'), R, ('add_entry', 'rb', 'new')), True
        yield v, nest, (('delete', 'rb'), R), True
        yield v, nest, (('move_group', 'rb', 'root'), ('empty', 'root')), True
        yield v, wide, (('empty', 'root'), R, ('add_group', 'root', 'G')), True
        yield v, wide, (('add_entry', 'root', 't159'), ('add_entry', 'root', 't0'), ('add_entry', 'root', 't160'), ('add_entry', 'g129', 't0'), ('add_group', 'g129', 'G0'), R), False
        yield v, wide, (('reindex', 'e0', 159), ('reindex', 'e159', 0), ('reindex', 'e100', 101), ('reindex', 'e101', 100), R, ('reindex', 'e5', 128)), False
        yield v, wide, tuple(('move_entry', 'e%d' % i, 'g%d' % (129 - i)) for i in range(0, 130, 13)) + tuple(('move_group', 'g%d' % i, 'g%d' % (i + 1)) for i in range(0, 129, 8)), False
        yield v, wide, (('append', 'g0') + tuple('e%d' % i for i in range(150)), R, ('empty', 'g0')), False
        yield v, deep, (('set', 'd129', 'name', 'leaf'), ('add_entry', 'd129', 'q'), ('move_group', 'd65', 'root'), R, ('move_group', 'd0', 'd129')), True
        yield v, deep, (('move_group', 'd0', 'd129'), ('move_group', 'd2', 'd100'), ('move_entry', 'x129', 'root'), ('move_entry', 'x0', 'd129'), ('delete', 'd3'), R), True


def main(chk):
    clock()
    chk.run_cases('clock', [(v, k, per, back) for v in (3, 4) for k in (('entry',), ('group',), ('entry', 'group'), ('group', 'trash')) for per in (1, 2, 7, 100, 1000) for back in ((), (0,), (0, 0), (-1,), (-3600, 0), (1, -1))],
                  run_clock, 'kinds of elements x clock granularities x clock steps', chunk=1)
    chk.run_cases('scale', big(), scale.run_script, 'scripts on 160 entries, 130 groups, nesting depth 130', chunk=1)
    texts = list(dict.fromkeys(NEAR + [t for t in TEXT if t]))
    chk.run_cases('duplicates', [(v, k, a, b) for v in (3, 4) for k in ('title', 'username') for a, b in
                                 ([(a, b) for a in NEAR for b in NEAR if v == 4 or a in NEAR[:6] or not chk.quick] + [(t, t) for t in texts] + [('a', t) for t in texts])], run_near,
                  'pairs of titles and user names x scopes: refused exactly if equal')
    for p, s, v, a in PARTS:
        depth = dict(small=3, full=2, order=3)[a] + (0 if chk.quick else 1)
        if chk.quick and v == 3 and a == 'small':
            depth = 2
        chk.explore(p, REPLAY[p], depth, dedupe_from=2)
