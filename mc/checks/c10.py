"""C10: attribute writes.  Every attribute x every value, every ordered pair of writes, every combination of arguments."""
import itertools

from .. import content as C
from .. import kp as K
from .. import scale
from ..core import eq, expect
from ..domains import NAMES, NEAR, TEXT, TEXT_SMALL
from ..world import Start, World, machine

LEVEL = 'model_checking'
LABELS = ['root', 'g1', 'full', 'bare', 'prot', 'other']
ALL = dict(Title='t', UserName='u', Password='p', URL='l', Notes='n', otp='o')


def doc(v):
    h = [C.entry(v, 'full', dict(ALL, Title='old'), custom=[('k', 'hist', True)], tags='h')]
    full = C.entry(v, 'full', ALL, custom=[('k', 'v', None), ('pk', 'pv', True), ('k"q', 'qv', None), ("k'q", 'qq', True)], tags='a;b',
                   binaries=[('f', 0)], history=h, icon='3')
    bare = C.entry(v, 'bare', {})
    prot = C.entry(v, 'prot', dict(Title='pt', UserName=None, Password=None))
    for s in prot.findall('String'):        # everything protected, as KeePass can be configured to
        s.find('Value').set('Protected', 'True')
    other = C.entry(v, 'other', dict(ALL, Title='other'), custom=[('k', 'ov', True)], tags='z')
    g1 = C.group(v, 'g1', 'G', bare, prot, notes='gn')
    return C.document(v, C.group(v, 'root', 'Root', full, other, g1), binaries3=[(b'one', True)])


STARTS = {v: Start(doc(v), version=v, binaries=[(1, b'one')] if v == 4 else ()) for v in (3, 4)}
EATTR = ('title', 'username', 'password', 'url', 'notes', 'otp', 'autotype_sequence', 'autotype_window')
GATTR = ('name', 'notes')


def writes(values, names, entries=('full', 'bare', 'prot'), groups=('g1', 'root')):
    for e in entries:
        for a in EATTR:
            for x in values:
                yield ('set', e, a, x)
        for x in ('0', '7', '68', '00', '007', '-1', '999', 'abc', ' 1 ', '1.0'):
            yield ('set', e, 'icon', x)
        for x in (('a',), ('a', 'b', 'c'), ('c', 'a', 'b'), ('a', 'a'), ('a', 'A'), 'a', 'a;b', 'b;a;b', (), ('é"\'', '<&'), ('x y',), (' a', 'b '), (' ',), ('tab\t',),
                  ('e\u0301',), ('10', '9'), ('t' * 300,)):
            yield ('set', e, 'tags', x)
        for x in (True, False, None):
            yield ('set', e, 'autotype_enabled', x)
        for x in (True, False):
            yield ('set', e, 'expires', x)
        for n in names:
            for x in ('v', '', 'a"\'b'):
                for p in (False, True):
                    yield ('prop', e, n, x, p)
        for x in values:
            for p in (False, True):
                yield ('prop', e, 'k', x, p)
        for n in K.REFUSED:
            yield ('prop', e, n, 'v', False)
        for n in ('k', 'pk', 'k"q', "k'q", 'absent', 'Title', 'otp', 'k" or "1"="1'):
            yield ('delprop', e, n)
        yield ('set_uuid', e, 'fresh')
    for g in groups:
        for a in GATTR:
            for x in values:
                yield ('set', g, a, x)
        for x in ('5', '00', '007', '-1', '999', 'abc'):
            yield ('set', g, 'icon', x)
        yield ('set', g, 'expires', True)
        yield ('set_uuid', g, 'fresh')
    for a in ('database_name', 'database_description', 'default_username'):
        for x in values:
            yield ('meta', a, x)
    for w in ('required', 'recommended'):
        for x in (-1, 0, 1, 365, 2 ** 31, -2, -1000, 7, 30, 9999, 10 ** 6, 2 ** 40):
            yield ('days', w, x)
    for x in values:
        if x:
            yield ('attachment_set', 'full', 0, 'filename', x)


def get_prop(w, op):
    e, n = op[1], op[2]
    if n not in K.REFUSED:
        want = w.node(e)['custom'].get(n)
        h = w.h[e]
        eq(K.nt(h.get_custom_property(n)), want[0] if want else None, 'get_custom_property(%r)' % n)
        eq(bool(h.is_custom_property_protected(n)), want[1] if want else False, 'is_custom_property_protected(%r)' % n)


def run_single(case):
    v, op = case
    w = World(STARTS[v], LABELS)
    lab = w.do(op)
    w.check(structure=False)
    if op[0] in ('prop', 'delprop'):
        get_prop(w, op)
    w.do(('reload',))
    w.check(structure=False, saved=False)
    if op[0] in ('prop', 'delprop'):
        get_prop(w, op)
    return lab


def run_pair(case):
    """Two writes to the same element (or its neighbour), then the whole state"""
    v, a, b, reload = case
    w = World(STARTS[v], LABELS)
    lab = w.do(a)
    if reload:
        w.do(('reload',))
    lab += '+' + w.do(b)
    w.check(structure=False, saved=not reload)
    return lab


KEYS = NEAR + ['title', 'TITLE', 'Title ', ' Title', 'username', 'OTP', 'otp ', 'Otp', 'password', 'Password2', 'URL ', 'url', 'notes', 'Key', 'Value', 'String', 'KPEX_PASSKEY', 'TimeOtp-Secret-Base32']


def run_names(case):
    """Properties with similar names are different properties"""
    v, a, b = case
    w = World(STARTS[v], LABELS)
    for op in (('prop', 'full', a, 'value a', False), ('prop', 'full', b, 'value b', True), ('prop', 'full', a, 'new a', False), ('prop', 'bare', b, 'other b', False), ('delprop', 'full', a), ('prop', 'full', a, 'again', True), ('delprop', 'full', b)):
        w.do(op)
        w.check(structure=False, saved=False)
        for n in (a, b):
            get_prop(w, ('prop', 'full', n))
            get_prop(w, ('prop', 'bare', n))
    w.do(('reload',))
    w.check(structure=False)
    return 'separate'


def small_writes():
    vs = ['x', '', 'a"b']
    out = []
    for a in EATTR:
        out += [('set', 'full', a, x) for x in vs]
    out += [('set', 'bare', a, 'x') for a in EATTR] + [('set', 'other', a, 'x') for a in EATTR[:3]]
    out += [('set', 'full', 'icon', '9'), ('set', 'full', 'tags', ('q', 'r')), ('set', 'full', 'tags', ()), ('set', 'full', 'expires', True),
            ('set', 'full', 'autotype_enabled', False)]
    for n in ('k', 'pk', 'k"q', "k'q", 'new', 'k2'):
        out += [('prop', 'full', n, x, p) for x in ('w', '') for p in (False, True)]
        out.append(('delprop', 'full', n))
    out += [('prop', 'bare', 'k', 'w', True), ('prop', 'other', 'k', 'w', False), ('delprop', 'other', 'k')]
    for g in ('g1', 'root'):
        out += [('set', g, 'name', 'N'), ('set', g, 'notes', 'M'), ('set', g, 'notes', ''), ('set', g, 'icon', '1')]
    out += [('meta', a, x) for a in ('database_name', 'database_description', 'default_username') for x in ('q', '')]
    out += [('days', 'required', 5), ('days', 'recommended', 6)]
    return out


def creations():
    opt = [('url', 'l'), ('notes', 'n'), ('tags', ('a', 'b')), ('otp', 'o'), ('icon', '4')]
    for v in (3, 4):
        for title, user, pw in itertools.product(('new', None, 't'), ('u', None, ''), ('p', None)):
            for mask in range(2 ** len(opt)):
                yield v, 'entry', (title, user, pw) + tuple(o[1] if mask >> i & 1 else None for i, o in enumerate(opt))
        for x in TEXT:
            for i in range(3 + len(opt)):
                a = ['n1', 'u1', 'p1', None, None, None, None, None]
                if i == 5:
                    if not x or set(',;') & set(x):
                        continue
                    a[5] = (x,)
                elif i == 7:
                    continue
                else:
                    a[i] = x
                yield v, 'entry', tuple(a)
            yield v, 'group', (x, None, None)
            yield v, 'group', ('g', None, x)
        for icon in (None, '0', '33'):
            for notes in (None, '', 'n'):
                yield v, 'group', ('g', icon, notes)
        yield v, 'entry', ('n1', 'u1', 'p1', None, None, 'a;b', None, None)


def run_create(case):
    v, kind, args = case
    w = World(STARTS[v], LABELS)
    for g in ('root', 'g1'):
        lab = w.do(('add_' + kind, g) + args)
        w.check(structure=False)
    w.do(('reload',))
    w.check(structure=False, saved=False)
    return lab


def ops_bfs(w):
    es = w.entries()
    out = []
    for e in es[:3]:
        out += [('set', e, 'title', 'x'), ('set', e, 'password', ''), ('set', e, 'password', 'p2'), ('set', e, 'otp', 'o2'),
                ('prop', e, 'k', 'w', True), ('prop', e, 'k', 'w', False), ('delprop', e, 'k'), ('set', e, 'url', '')]
    out += [('set', 'g1', 'name', 'N'), ('meta', 'database_name', 'D'), ('reload',), ('save_history', 'full')]
    return out


PARTS = {v: machine(STARTS[v], LABELS, ops_bfs, structure=False) for v in (3, 4)}
REPLAY = dict(names=run_names, single=run_single, pair=run_pair, create=run_create, **{'sequences-v%d' % v: PARTS[v] for v in PARTS})
REPLAY['scale'] = scale.run_script


def big():
    R = ('reload',)
    for v in (3, 4):
        for n in (63, 64, 100, 255, 256, 400):
            s = scale.t(entries=2, props=n)
            yield v, s, (('prop', 'e0', 'key %d' % (n - 1), 'w', True), ('prop', 'e0', 'one more', 'x', False), ('delprop', 'e0', 'key 0'), ('delprop', 'e0', 'key %d' % (n - 2)),
                         ('set', 'e0', 'otp', 'o'), ('set', 'e0', 'url', 'l'), R, ('prop', 'e0', 'key 1', '', False), R), False
            yield v, s, (('set', 'e0', 'tags', tuple('tag%d' % i for i in range(n))), ('set', 'e0', 'title', 'z' * 70000), ('set', 'e0', 'notes', 'line\n' * 20000), R), False


def main(chk):
    chk.run_cases('scale', big(), scale.run_script, 'up to 400 properties and tags, long values', chunk=1)
    single = [(v, op) for v in (3, 4) for op in writes(TEXT, NAMES)]
    chk.run_cases('single', single, run_single, 'every attribute x every value of the text alphabet x element x format')
    chk.run_cases('create', creations(), run_create, 'every combination of optional arguments and every argument x text value')
    chk.run_cases('names', [(v, a, b) for v in (3, 4) for a in KEYS for b in KEYS if a != b and (v == 4 or not chk.quick or a in KEYS[:4])], run_names, 'every ordered pair of similar property names')
    sw = small_writes()
    pairs = [(4, a, b, r) for a in sw for b in sw for r in ((False, True) if not chk.quick else (False,))]
    pairs += [(3, a, b, False) for a in sw for b in sw] if not chk.quick else []
    chk.run_cases('pair', pairs, run_pair, 'every ordered pair of writes')
    for v in (4, 3):
        chk.explore('sequences-v%d' % v, PARTS[v], (3 if v == 4 else 2) + (0 if chk.quick else 1), dedupe_from=2)
