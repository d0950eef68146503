"""C07: searches.  Databases x queries, every answer compared with a search over the independently decoded document."""
import itertools
import re
import uuid
from datetime import timedelta

from .. import content as C
from .. import kp as K
from .. import refkdbx as R
from ..core import eq, expect, fail
from ..domains import NAMES
from ..world import Start, machine, walk

LEVEL = 'model_checking'
STR = ('title', 'username', 'password', 'url', 'notes', 'otp')
AUTO = ('autotype_sequence', 'autotype_window')
CUSTOM = ('c1', 'a"b\'c')
CUSTOM2 = ('third', 'Fourth', '5th')


# ---------------------------------------------------------------- documents
class Numbered:
    """Builds elements with unique creation times, which identify them in results"""

    def __init__(self, v):
        self.v, self.n = v, 0

    def mark(self):
        self.n += 1
        return C.T0 + timedelta(seconds=self.n)

    def entry(self, vals, label=None, binaries=(), history=None, windows=()):
        """vals: attribute -> text"""
        m = self.mark()
        e = C.entry(self.v, label or 'e%d' % self.n, {K.KEYS[a]: vals[a] for a in STR if a in vals},
                    custom=[(k, vals['string ' + k], k == 'c1') for k in CUSTOM + CUSTOM2 if 'string ' + k in vals], tags=vals.get('tags'),
                    binaries=binaries, history=history, ctime=m)
        at = e.find('AutoType')
        at.find('DefaultSequence').text = vals.get('autotype_sequence')
        at.find('Association/Window').text = vals.get('autotype_window')
        for w in windows:
            at.append(C.el('Association', None, C.el('Window', w), C.el('KeystrokeSequence', '{TAB}')))
        at.find('Enabled').text = vals.get('autotype_enabled', 'True')
        return e

    def group(self, name, *kids, notes=None):
        m = self.mark()
        g = C.group(self.v, 'g%d' % self.n, name, *kids, notes=notes)
        g.find('Times/CreationTime').text = C.when(self.v, m)
        return g


class DB:
    def __init__(self, v, build):
        self.v = v
        n = Numbered(v)
        root = build(n)
        bins = [b'b%d' % i for i in range(12)]
        doc = C.document(v, root, binaries3=[(b, True) for b in bins])
        self.data, self.tk, _ = K.template(doc, version=v, binaries=[(1, b) for b in bins] if v == 4 else ())
        db = R.decode(self.data, tk=self.tk)
        self.entries, self.groups, self.atts = [], [], []
        self.walk(db, db.xml.find('Root/Group'), ())
        self.by_mark = {x['mark']: x for x in self.entries + self.groups}

    def walk(self, db, g, chain):
        me = dict(mark=K.ref_times(db, g)[0], uuid=K.ref_uuid(K.child(g, 'UUID')), name=K.child(g, 'Name'), notes=K.child(g, 'Notes'),
                  chain=chain, history=False)
        self.groups.append(me)
        here = chain + (me['mark'],)
        for e in g.findall('Entry'):
            self.rec(db, e, here, False, ())
            for h in e.findall('History/Entry'):
                self.rec(db, h, here, True, (K.ref_times(db, e)[0],))
        for s in g.findall('Group'):
            self.walk(db, s, here)

    def rec(self, db, e, chain, hist, owner):
        strings = {K.child(s, 'Key'): K.child(s, 'Value') for s in e.findall('String')}
        d = {a: strings.get(K.KEYS[a]) for a in STR}
        for k in CUSTOM + CUSTOM2:
            d['string ' + k] = strings.get(k)
        d.update(mark=K.ref_times(db, e)[0], uuid=K.ref_uuid(K.child(e, 'UUID')), tags=K.child(e, 'Tags') or '', history=hist, chain=chain, owner=owner,
                 autotype_sequence=K.child(e, 'AutoType/DefaultSequence'), autotype_window=[K.nt(x.text) for x in e.findall('AutoType/Association/Window')],
                 autotype_enabled=K.child(e, 'AutoType/Enabled'))
        self.entries.append(d)
        for b in e.findall('Binary'):
            self.atts.append(dict(mark=(d['mark'], K.child(b, 'Key'), int(b.find('Value').get('Ref'))), filename=K.child(b, 'Key'),
                                  id=int(b.find('Value').get('Ref')), history=hist, chain=chain, entry=d['mark'], owner=owner))

    def open(self):
        return K.open_bytes(self.data, self.tk)

    def scope(self, kind, q):
        """Elements in the searched scope"""
        out = []
        for x in dict(entries=self.entries, groups=self.groups, attachments=self.atts)[kind]:
            if x['history'] and not q.get('history'):
                continue
            g = q.get('group')
            if g is not None:
                if kind == 'attachments' and g in (e['mark'] for e in self.entries):
                    if not (x['entry'] == g or q.get('recursive', True) and g in x['owner']):
                        continue
                elif not (g in x['chain'] if q.get('recursive', True) else x['chain'][-1:] == (g,) and not x['history'] and kind != 'attachments'):
                    continue
            out.append(x)
        return out

    def want(self, kind, q):
        return [x['mark'] for x in self.scope(kind, q) if all(match(x, a, v, q) for a, v in q['crit'].items())]


def match(x, a, v, q):
    if a == 'uuid':
        return x['uuid'] == v.hex
    if a == 'id':
        return x['id'] == v
    if a == 'tags':
        return all(t in x['tags'] for t in v)
    if a == 'autotype_enabled':
        return x[a] == str(v)
    if a == 'string':
        return all(match(x, 'string ' + k, w, q) for k, w in v.items())
    t = x[a]
    if isinstance(t, list):      # an entry may have several windows
        return any(match({a: w}, a, v, q) for w in t)
    if q.get('regex'):
        return re.search(v, t or '', re.I if 'i' in (q.get('flags') or '') else 0) is not None
    return t == v


def mark_of(kind, x):
    return (x.entry.ctime, K.nt(x.filename), x.id) if kind == 'attachments' else x.ctime


CLS = dict(entries='Entry', groups='Group', attachments='Attachment')


def ask(db, kp, kind, q, fn=None, kw=None):
    """One query, list and first form, against the oracle"""
    want = db.want(kind, q)
    if kw is None:
        kw = dict(q['crit'])
        for k in ('regex', 'flags', 'recursive', 'history'):
            if k in q:
                kw[k] = q[k]
        if q.get('group') is not None:
            x = handle(db, kp, q['group'])
            kw['element' if kind == 'attachments' else 'group'] = x
    f = fn or getattr(kp, 'find_' + kind)
    res = f(**kw)
    expect(isinstance(res, list), lambda: '%s gives %r' % (desc(kind, q), res))
    for x in res:
        expect(type(x).__name__ in (CLS[kind], 'HistoryEntry'), lambda: '%s gives a %s' % (desc(kind, q), type(x).__name__))
    got = [mark_of(kind, x) for x in res]
    if sorted(got, key=repr) != sorted(want, key=repr):
        miss, extra = [m for m in want if m not in got], [m for m in got if m not in want]
        fail('%s: %d results, expected %d; missing %s; wrong %s' % (desc(kind, q), len(got), len(want), names(db, miss), names(db, extra)),
             'result %s %s' % (kind, sorted(q['crit'])))
    one = f(first=True, **kw)
    if not want:
        expect(one is None, lambda: '%s with first gives %r, expected None' % (desc(kind, q), one))
    else:
        expect(not isinstance(one, list) and one is not None, lambda: '%s with first gives %r' % (desc(kind, q), one))
        m = mark_of(kind, one)
        expect(m == got[0], lambda: '%s with first is not the first of the list' % desc(kind, q))
    return len(want)


def handle(db, kp, mark):
    x = db.by_mark[mark]
    if 'name' in x and 'title' not in x:
        return next(g for g in all_groups(kp) if g.ctime == mark)
    for g in all_groups(kp):
        for e in g.entries:
            for h in [e] + e.history:
                if h.ctime == mark:
                    return h
    fail('element not reachable by traversal')


def all_groups(kp):
    todo = [kp.root_group]
    while todo:
        g = todo.pop()
        yield g
        todo += g.subgroups


def desc(kind, q):
    d = {k: v for k, v in q.items() if k != 'crit'}
    s = ', '.join(['%s=%.80r' % x for x in q['crit'].items()] + ['%s=%s' % (k, v) for k, v in d.items() if k != 'group'])
    return 'find_%s(%s%s)' % (kind, s, ', group' if d.get('group') else '')


def names(db, marks):
    def n(m):
        x = db.by_mark.get(m, {})
        return x.get('title', x.get('name', m))
    return repr([n(m) for m in marks[:3]])[:300]


# ---------------------------------------------------------------- values
ROT = {a: 7 * i for i, a in enumerate(STR + AUTO + tuple('string ' + k for k in CUSTOM))}
VALUES = [t for t in NAMES if len(t) <= 1000]


def many_values(n):
    def vals(i, shift):
        return {a: VALUES[(i + r + shift) % len(VALUES)] for a, r in ROT.items()}
    N = len(VALUES)
    e0 = [n.entry(vals(i, 0), windows=[VALUES[(i + k * 11) % N] for k in range(i % 3)]) for i in range(N)]
    e1 = [n.entry(vals(i, 0), history=[n.entry(vals(i, 1), label='hist%d' % i)]) for i in range(0, N, 2)]
    e2 = [n.entry(vals(i, 0)) for i in range(1, N, 2)]
    e2 += [n.entry({}), n.entry({a: '' for a in ROT})]
    sub = n.group('sub', *e2)
    other = n.group('other', *[n.entry(vals(i, 0)) for i in range(0, N, 5)])
    return n.group('Root', *(e0 + [n.group('g', *(e1 + [sub])), other]))


def group_values(n):
    kids = []
    for i, t in enumerate(VALUES):
        kids.append(n.group(t, n.group(VALUES[(i + 3) % len(VALUES)], notes=t), notes=VALUES[(i + 5) % len(VALUES)]))
    kids += [n.group(None), n.group('', notes='')]
    return n.group('Root', *kids)


def file_values(n):
    N = len(VALUES)
    es = []
    for i, t in enumerate(VALUES):
        h = [n.entry(dict(title='h'), label='fe%d' % i, binaries=[(VALUES[(i + 1) % N], i % 12), ('x y', 3)])] if i % 3 == 0 else None
        es.append(n.entry(dict(title='e'), label='fe%d' % i, binaries=[(t, i % 12), (VALUES[(i + 2) % N], (i + 1) % 12)], history=h))
    return n.group('Root', *(es[:N // 2] + [n.group('g', *(es[N // 2:] + [n.group('s', n.entry(dict(title='in s'), binaries=[('x', 1), ('x', 10)]))]))]))


def big_values(n):
    """Result lists past any page size: 2600 entries, 1150 groups, 1300 snapshots, nesting depth 90"""
    def e(i):
        h = [n.entry(dict(title='T', username='u%d' % i), label='B%d' % i, binaries=[('F', 1)])] if i % 2 else None
        return n.entry(dict(title='T', username='u%d' % (i % 1300), password='p', url='l%d' % (i % 2)), label='B%d' % i, history=h, binaries=[('F', i % 12)])
    wide = n.group('g', *([e(i) for i in range(2000)] + [n.group('N', notes='x') for i in range(1050)]))
    d = None
    for i in range(90):
        d = n.group('N', *([e(2000 + i)] + ([d] if d is not None else [])))
    return n.group('Root', *([e(i) for i in range(2100, 2600)] + [wide, d]))


BIG_CRIT = ({}, dict(title='T'), dict(username='u7'), dict(title='T', password='p'), dict(url='l1', title='T'), dict(title='absent'))


def big_case(case):
    v, what, k = case
    d = db('big', v)
    kp = d.open()
    n = 0
    if what == 'entries':
        for crit in BIG_CRIT[k:k + 1]:
            for s in scopes(d, 'entries'):
                n += ask(d, kp, 'entries', dict(s, crit=crit))
                if crit and 'absent' not in crit.values():
                    n += ask(d, kp, 'entries', dict(s, crit={k: '^%s$' % x for k, x in crit.items()}, regex=True))
        eq(len(kp.entries), 2590, 'entries')
    elif what == 'groups':
        for crit in ({}, dict(name='N'), dict(notes='x'), dict(name='N', notes='x')):
            for s in scopes(d, 'groups'):
                n += ask(d, kp, 'groups', dict(s, crit=crit))
        eq(len(kp.groups), 1142, 'groups')
        deep = max((g for g in d.groups), key=lambda g: len(g['chain']))
        path = ['N'] * 90
        f = kp.find_groups(path=path)
        expect(f is not None and f.ctime == deep['mark'], 'a group 90 levels deep is not found by its path')
        f = kp.find_entries(path=path + ['T'])
        expect(f is not None and f.group.ctime == deep['mark'], 'an entry 90 levels deep is not found by its path')
    else:
        for crit in ({}, dict(filename='F'), dict(filename='F', id=1), dict(id=11)):
            for s in scopes(d, 'attachments'):
                n += ask(d, kp, 'attachments', dict(s, crit=crit))
        eq(len(kp.attachments), 2590, 'attachments')
    return 'matches'


DBS = {}


def db(name, v):
    k = name, v
    if k not in DBS:
        DBS[k] = DB(v, dict(values=many_values, groups=group_values, files=file_values, pairs=pairs_db, big=big_values, tags=tags_db)[name])
    return DBS[k]


def scopes(d, kind, full=True):
    """Scope arguments: none; each named group with and without recursion; history on and off"""
    gs = [g for g in d.groups if g['name'] in ('Root', 'g', 'sub', 's')]
    out = [{}]
    for g in gs:
        for r in (True, False):
            if kind == 'attachments' and not r:
                continue
            out.append(dict(group=g['mark'], recursive=r))
    res = []
    for s in out:
        res.append(s)
        if full:
            res.append(dict(s, history=False))
        if not (s.get('group') and not s['recursive']):
            res.append(dict(s, history=True))
    return res


def patterns(v):
    """(pattern, flags): none of them matches the empty string"""
    e = re.escape(v)
    out = [(e, None), ('^%s$' % e, None), (e, 'i'), (re.escape(v.upper()), 'i'), (re.escape(v[:1]), ''), ('^' + re.escape(v[:2]), None)]
    if len(v) > 1:
        out.append((re.escape(v[1:]) + '$', None))
    return list(dict.fromkeys(out))


def value_case(case):
    v, attr, value = case
    d = db('values', v)
    kp = d.open()
    n = 0
    sc = scopes(d, 'entries', False)
    crit = {'string': {attr[7:]: value}} if attr.startswith('string ') else {attr: value}
    for s in sc:
        n += ask(d, kp, 'entries', dict(s, crit=crit))
    for p, fl in patterns(value):
        c = {'string': {attr[7:]: p}} if attr.startswith('string ') else {attr: p}
        for s in sc[::3] if fl else sc[:3]:
            n += ask(d, kp, 'entries', dict(s, crit=c, regex=True, flags=fl))
    if attr in ('title', 'username', 'password', 'url', 'notes', 'string c1'):
        f = getattr(kp, 'find_entries_by_' + attr.split()[0])
        arg = crit.get('string', value)
        for s in sc:
            if s.get('recursive', True):
                kw = {k: x for k, x in s.items() if k == 'history'}
                if s.get('group'):
                    kw['group'] = handle(d, kp, s['group'])
                n += ask(d, kp, 'entries', dict(s, crit=crit), lambda **k: f(arg, **k), kw)
        p = re.escape(value.upper())
        n += ask(d, kp, 'entries', dict(crit={'string': {attr[7:]: p}} if attr[:6] == 'string' else {attr: p}, regex=True, flags='i'),
                 lambda **k: f({attr[7:]: p} if attr[:6] == 'string' else p, regex=True, flags='i', **k), {})
    return 'matches' if n else 'none'


def group_case(case):
    v, attr, value = case
    d = db('groups', v)
    kp = d.open()
    n = 0
    mid = [g for g in d.groups if len(g['chain']) == 1][3]
    sc = scopes(d, 'groups') + [dict(group=mid['mark'], recursive=r) for r in (True, False)]
    for s in sc:
        n += ask(d, kp, 'groups', dict(s, crit={attr: value}))
    for p, fl in patterns(value):
        for s in sc:
            n += ask(d, kp, 'groups', dict(s, crit={attr: p}, regex=True, flags=fl))
    f = getattr(kp, 'find_groups_by_' + attr)
    n += ask(d, kp, 'groups', dict(crit={attr: value}), lambda **k: f(value, **k), {})
    n += ask(d, kp, 'groups', dict(crit={attr: value}, group=mid['mark']), lambda **k: f(value, **k), dict(group=handle(d, kp, mid['mark'])))
    n += ask(d, kp, 'groups', dict(crit={attr: re.escape(value.upper())}, regex=True, flags='i'),
             lambda **k: f(re.escape(value.upper()), regex=True, flags='i', **k), {})
    return 'matches' if n else 'none'


def file_case(case):
    v, value = case
    d = db('files', v)
    kp = d.open()
    n = 0
    owners = [e['mark'] for e in d.entries if any(a['entry'] == e['mark'] and a['filename'] == value for a in d.atts)][:3]
    sc = scopes(d, 'attachments')
    for o in owners:
        sc += [dict(group=o), dict(group=o, recursive=False), dict(group=o, history=True), dict(group=o, recursive=False, history=True)]
    ids = sorted({a['id'] for a in d.atts if a['filename'] == value})[:3] + [99]
    for s in sc:
        n += ask(d, kp, 'attachments', dict(s, crit={'filename': value}))
        for i in ids:
            n += ask(d, kp, 'attachments', dict(s, crit={'filename': value, 'id': i}))
    for p, fl in patterns(value):
        for s in sc[::2]:
            n += ask(d, kp, 'attachments', dict(s, crit={'filename': p}, regex=True, flags=fl))
            n += ask(d, kp, 'attachments', dict(s, crit={'filename': p, 'id': ids[0]}, regex=True, flags=fl))
    return 'matches' if n else 'none'


def misc_case(case):
    """Searches without criteria, by uuid and by id; listing properties"""
    v, name, what = case
    d = db(name, v)
    kp = d.open()
    if what == 'list':
        n = 0
        for kind in ('entries', 'groups', 'attachments'):
            for s in scopes(d, kind):
                n += ask(d, kp, kind, dict(s, crit={}))
            cur = sorted((x['mark'] for x in d.scope(kind, {})), key=repr)
            eq(sorted((mark_of(kind, x) for x in getattr(kp, kind)), key=repr), cur, 'kp.' + kind)
        for g in all_groups(kp):
            eq([e.ctime for e in g.entries], [e['mark'] for e in d.entries if e['chain'][-1] == g.ctime and not e['history']], 'entries of a group')
            eq([x.ctime for x in g.subgroups], [x['mark'] for x in d.groups if x['chain'][-1:] == (g.ctime,)], 'subgroups of a group')
            for e in g.entries:
                for h in [e] + e.history:
                    eq(sorted((mark_of('attachments', a) for a in h.attachments), key=repr),
                       sorted((a['mark'] for a in d.atts if a['entry'] == h.ctime), key=repr), 'attachments of an entry')
        return 'listed'
    if what == 'id':
        for i in list(range(14)) + [100, 1000]:
            for s in scopes(d, 'attachments'):
                ask(d, kp, 'attachments', dict(s, crit={'id': i}))
                ask(d, kp, 'attachments', dict(s, crit={'id': i}, regex=True))
        return 'ids'
    kind = what
    us = sorted({x['uuid'] for x in getattr(d, kind)})
    for i, u in enumerate(us + ['0' * 32, 'f' * 32]):
        u = uuid.UUID(u)
        for s in scopes(d, kind) if i < 40 or i >= len(us) else ({}, dict(history=True)):
            ask(d, kp, kind, dict(s, crit={'uuid': u}))
        ask(d, kp, kind, dict(crit={'uuid': u}, regex=True, flags='i'))
        f = getattr(kp, 'find_%s_by_uuid' % kind)
        ask(d, kp, kind, dict(crit={'uuid': u}), lambda **k: f(u, **k), {})
    return 'uuids'


# ---------------------------------------------------------------- combinations of criteria
CRIT = STR + AUTO + tuple('string ' + k for k in CUSTOM) + ('autotype_enabled', 'tags')
MORE = tuple('string ' + k for k in CUSTOM2)
MASK = dict(zip(CRIT + MORE, (1, 2, 4, 8, 3, 5, 6, 9, 10, 12, 7, 14, 11, 13, 15)))


def pairs_db(n):
    """16 entries: attribute a of entry i is the parity of i & MASK[a], so every pair of attributes takes all four combinations"""
    def vals(i):
        out = {}
        for a, m in MASK.items():
            b = bin(i & m).count('1') % 2
            out[a] = ('False', 'True')[b] if a == 'autotype_enabled' else ('t1;t2', 't1,t3')[b] if a == 'tags' else ('%s p"', "%s q'")[b] % a
        return out
    es = [n.entry(vals(i), history=[n.entry(vals(15 - i), label='p%d' % i)] if i % 3 == 0 else None) for i in range(16)]
    es2 = [n.entry(vals(i)) for i in range(16)]
    es3 = [n.entry(vals(i)) for i in range(0, 16, 3)]
    return n.group('Root', *(es + [n.group('g', *(es2 + [n.group('sub', *es3)]))]))


def crit_value(a, k, regex):
    if a == 'autotype_enabled':
        return (False, True, True)[k]
    if a == 'tags':
        return (['t2'], ['t1', 't3'], ['t1'])[k]
    s = ("%s p\"" % a, "%s q'" % a, 'zz')[k]
    if regex:
        s = ('p"$', "^%s q" % re.escape(a), '^zz')[k]
    return s


def build_crit(combo, regex):
    crit = {}
    for a, k in combo:
        x = crit_value(a, k, regex)
        if a.startswith('string '):
            crit.setdefault('string', {})[a[7:]] = x
        else:
            crit[a] = x
    return crit


def combo_case(case):
    v, attrs, allvals = case
    d = db('pairs', v)
    kp = d.open()
    n = 0
    sc = [{}, dict(history=True)] + [dict(group=g['mark'], recursive=r) for g in d.groups if g['name'] == 'g' for r in (True, False)]
    k = len(attrs)
    if allvals is None:
        values = [tuple(bin(i & MASK[a]).count('1') % 2 for a in attrs) for i in range(16)]
        values += [v[:j] + (1 - v[j],) + v[j + 1:] for v in values[::5] for j in range(k)]
    else:
        values = itertools.product(range(3 if allvals else 2), repeat=k)
    for ks in values:
        for regex in (False, True):
            crit = build_crit(list(zip(attrs, ks)), regex)
            if regex and 'autotype_enabled' in crit:
                crit['autotype_enabled'] = str(crit['autotype_enabled'])     # text when regular expressions are used
            for s in sc:
                n += ask(d, kp, 'entries', dict(s, crit=crit, **(dict(regex=True) if regex else {})))
            # the order of the criteria does not matter
            n += ask(d, kp, 'entries', dict(crit=dict(reversed(list(crit.items()))), **(dict(regex=True) if regex else {})))
    return 'matches' if n else 'none'


# ---------------------------------------------------------------- paths
NAMESP = ('a', 'b"\'', None)


def path_dbs(quick):
    """All forests of up to three groups below the root, names from NAMESP; entries titled from NAMESP in some groups"""
    shapes = [(-1,), (-1, 0), (-1, -1), (-1, 0, 1), (-1, 0, 0), (-1, -1, 0), (-1, -1, 1), (-1, -1, -1)]
    for sh in shapes:
        for nm in itertools.product(range(3), repeat=len(sh)):
            for ents in range(2 ** (len(sh) + 1)) if not quick else (0, 2 ** (len(sh) + 1) - 1, 5 % 2 ** (len(sh) + 1), 6 % 2 ** (len(sh) + 1)):
                yield sh, nm, ents


def path_case(case):
    v, sh, nm, ents = case

    def build(n):
        def kids(i):
            out = []
            if ents >> (i + 1) & 1:
                out += [n.entry(dict(title=NAMESP[(i + 1 + k) % 3], username=str(k)) if k else dict(username='x')) for k in range(0, 3)]
            out += [n.group(NAMESP[nm[j]], *kids(j)) for j in range(len(sh)) if sh[j] == i]
            return out
        return n.group('Root', *kids(-1))
    d = DB(v, build)
    kp = d.open()
    n = 0

    def reach(path, regex, flags=None):
        cur = [d.groups[0]['mark']]
        for p in path:
            cur = [g['mark'] for g in d.groups if g['chain'][-1:] and g['chain'][-1] in cur and hit(g['name'], p, regex, flags)]
        return cur
    for length in range(0, len(sh) + 2):
        for path in itertools.product(NAMESP, repeat=length):
            n += check_path(d, kp, path, reach, None, None)
        if length <= 2:
            for path in itertools.product(('[ab]', 'A', '^b"\'$', 'zz'), repeat=length):
                for fl in (None, 'i'):
                    n += check_path(d, kp, path, reach, True, fl)
    return 'found' if n else 'none'


def hit(name, p, regex, flags):
    if regex:
        return re.search(p, name or '', re.I if flags else 0) is not None
    return name == p


def check_path(d, kp, path, reach, regex, flags):
    kw = dict(regex=True, flags=flags) if regex else {}
    n = 0
    groups = reach(path, regex, flags)
    for f in (kp.find_groups, lambda path, **k: kp.find_groups_by_path(path, **k), lambda path, **k: kp.find_groups(path=path, first=True, **k)):
        r = f(path=list(path), **kw)
        if not groups:
            expect(r is None, lambda: 'find_groups(path=%r) gives %r, expected None' % (path, r))
        else:
            expect(r is not None and r.ctime in groups, lambda: 'find_groups(path=%r) gives %r' % (path, r))
            n += 1
    if path:
        gs = reach(path[:-1], regex, flags)
        es = [e['mark'] for e in d.entries if e['chain'][-1] in gs and not e['history'] and hit(e['title'], path[-1], regex, flags)]
        for f in (kp.find_entries, lambda path, **k: kp.find_entries_by_path(path, **k)):
            r = f(path=list(path), **kw)
            if not es:
                expect(r is None, lambda: 'find_entries(path=%r) gives %r, expected None' % (path, r))
            else:
                expect(r is not None and r.ctime in es, lambda: 'find_entries(path=%r) gives %r' % (path, r))
                n += 1
    return n


# ---------------------------------------------------------------- searches between edits
LABELS = ['root', 'g1', 'g2', 'e0', 'e1']


def live_doc(v):
    e0 = C.entry(v, 'e0', dict(Title='t', UserName='u', Password='p'), custom=[('k', 'v', None)], tags='x;y', binaries=[('f', 0)],
                 history=[C.entry(v, 'e0', dict(Title='old', UserName='u', Password='p0'))])
    e1 = C.entry(v, 'e1', dict(Title='s', UserName='u', Password='q'))
    return C.document(v, C.group(v, 'root', 'Root', e0, C.group(v, 'g1', 'G', e1, C.group(v, 'g2', 'H'))), binaries3=[(b'x', True)])


LIVE = {v: Start(live_doc(v), version=v, binaries=[(1, b'x')] if v == 4 else ()) for v in (3, 4)}


def live_ops(w):
    out = [('reload',), ('add_entry', 'root', 't2', 'u2'), ('add_group', 'root', 'new')]
    es, gs = w.entries(), w.groups()
    for e in es[:3]:
        out += [('set', e, 'title', 't2'), ('set', e, 'username', 't'), ('set', e, 'password', 'q'), ('prop', e, 'k', 'v2', True), ('set', e, 'tags', ('z',)),
                ('save_history', e), ('delete', e), ('trash', e), ('move_entry', e, gs[-1]), ('attach', e, 0, 'g'), ('set', e, 'autotype_enabled', False),
                ('set_uuid', e, 'fresh-' + e[:2])]
        if 'k' in w.node(e)['custom']:
            out.append(('delprop', e, 'k'))
        if w.node(e)['history']:
            out.append(('delete_history', e, 0))
    for g in gs[1:3]:
        out += [('set', g, 'name', 'G2'), ('set', g, 'notes', 'n'), ('delete', g), ('trash', g), ('empty', g), ('move_group', g, 'root')]
    return out


def live_search(w, op, notes=None):
    """Every query over the small alphabet, answered from the model"""
    kp = w.kp
    cur = [(e, [g for g in walk(w.m['root']) if any(x is e for y in walk(g) for x in y['entries'])]) for g in walk(w.m['root']) for e in g['entries']]
    hist = [(h, c) for e, c in cur for h in e['history']]

    def key(e):
        return (e['uuid'], e['title'], e['username'], e['password'])

    def obs(e):
        return (e.uuid.hex, K.nt(e.title), K.nt(e.username), K.nt(e.password))

    def same(kw, pred):
        for history in (False, True):
            for g in [None] + w.groups():
                want = sorted((key(e) for e, c in cur + (hist if history else []) if pred(e) and (g is None or any(w.name(x['uuid']) == g for x in c))), key=repr)
                k = dict(kw, history=history, **({'group': w.h[g]} if g else {}))
                got = sorted(map(obs, kp.find_entries(**k)), key=repr)
                expect(got == want, lambda: 'find_entries(%r) gives %r, expected %r' % (k, got, want))
                one = kp.find_entries(first=True, **k)
                expect(one is None if not want else obs(one) in want, lambda: 'find_entries(%r, first=True) gives %r' % (k, one))
    same({}, lambda e: True)
    for a in ('title', 'username', 'password'):
        for t in ('t', 't2', 's', 'u', 'q', 'old'):
            same({a: t}, lambda e: e[a] == t)
    same(dict(title='t', username='u'), lambda e: e['title'] == 't' and e['username'] == 'u')
    same(dict(title='^t', regex=True), lambda e: (e['title'] or '').startswith('t'))
    for t in ('v', 'v2'):
        same(dict(string={'k': t}), lambda e: e['custom'].get('k', (None,))[0] == t)
    for b in (True, False):
        same(dict(autotype_enabled=b), lambda e: e['autotype'][0] is b)
    for t in (['x'], ['y', 'x'], ['z']):
        same(dict(tags=t), lambda e: all(x in e['tags'] for x in t))
    for u in {e['uuid'] for e, _ in cur}:
        same(dict(uuid=uuid.UUID(u)), lambda e: e['uuid'] == u)
    for nm in ('G', 'G2', 'H', 'new', 'Root'):
        want = sorted(g['uuid'] for g in walk(w.m['root']) if g['name'] == nm)
        eq(sorted(g.uuid.hex for g in kp.find_groups(name=nm)), want, 'find_groups(name=%r)' % nm)
    for f in ('f', 'g'):
        want = sorted((e['uuid'], a) for e, _ in cur for a in e['attachments'] if a[0] == f)
        eq(sorted((a.entry.uuid.hex, K.obs_attachment(a)) for a in kp.find_attachments(filename=f)), want, 'find_attachments(filename=%r)' % f)


def live_before(w, op):
    """Searching before the step as well: an answer remembered from then must not be given afterwards"""
    live_search(w, op)


TAGTEXTS = ['a', 'A', 'a;b', 'b;a', 'a,b', 'a; b', ' a', 'a ', 'ab', 'a b', 'ba;ab', 'a;a;a', ';a', 'a;', ';', 'b', 'c;a;b', '"', "'", 'a"b\'c', 'a&b', 'á', 'a\u0301', 'a\tb', 'a\nb', '{}', '%s', '.', '*', '0', 'x' * 300 + 'a', 'tag', 'Tag', 'tagged', None]
TAGS = ['a', 'A', 'b', 'c', ' a', 'a ', ' ', ';', ',', 'ab', 'a b', 'a;b', 'b;a', '; b', '"', "'", 'a"b\'c', '"b', '&', '&amp;', 'á', 'a\u0301', '\t', '\n', '{}', '{0}', '%s', '.', '.*', '*', '0', 'xa', 'tag', 'TAG', 'tags', 'zz', 'x' * 300]


def tags_db(n):
    hist = lambda i: [n.entry({'title': 'h%d' % i, 'tags': TAGTEXTS[(i * 7 + 3) % len(TAGTEXTS)]}, label='t%d' % i)] if i % 3 == 0 else None
    es = [n.entry({'title': 't', 'tags': t}, label='t%d' % i, history=hist(i)) for i, t in enumerate(TAGTEXTS)]
    return n.group('Root', *es[:10], n.group('G', *es[10:20], n.group('S', *es[20:])))


def tags_case(case):
    """Entries whose tag text contains every given tag"""
    v, tags = case
    d = db('tags', v)
    kp = K.open_bytes(d.data, d.tk)
    g, s_ = (kp.find_groups(name=x, first=True) for x in 'GS')
    n = 0
    for history, group, rec, seq in itertools.product((False, True), (None, g, s_), (True, False), (list, tuple)):
        if not rec and (group is None or history):
            continue
        scope = [e for e in kp.entries if group is None or (e.group == group if not rec else group in (e.group, e.group.group))]
        cand = scope + [h for e in scope for h in e.history if history]
        text = {}
        for e in cand:
            k = (e.uuid.int, e.title)
            i = next(i for i in range(len(TAGTEXTS)) if C.uid('t%d' % i).int == e.uuid.int)
            text[k] = TAGTEXTS[i] if e.title == 't' else TAGTEXTS[(i * 7 + 3) % len(TAGTEXTS)]
        want = sorted(k for k, t in text.items() if all(x in (t or '') for x in tags))
        kw = dict(tags=seq(tags), history=history, recursive=rec, **({'group': group} if group else {}))
        got = sorted((e.uuid.int, e.title) for e in kp.find_entries(**kw))
        expect(got == want, lambda: 'find_entries(tags=%r, history=%s, group=%s, recursive=%s): %d entries, expected %d' % (tags, history, group, rec, len(got), len(want)))
        one = kp.find_entries(first=True, **kw)
        expect(one is None if not want else (one.uuid.int, one.title) in want, 'first by tags')
        n += len(want)
    return 'some' if n else 'none'


REPLAY = {'tags': tags_case, 'values': value_case, 'groups': group_case, 'files': file_case, 'misc': misc_case, 'combinations': combo_case, 'paths': path_case, 'scale': big_case}
for _v in (3, 4):
    REPLAY['live-v%d' % _v] = machine(LIVE[_v], LABELS, live_ops, before=live_before, extra=live_search, structure=False, saved=False)


def main(chk):
    chk.assumptions += ['the order of the results is not judged (first must be the first of the list)',
                        'tags are searched as text (every given tag is contained in the tag text), the semantics the existing tests pin',
                        'regular expressions that match the empty string are not judged on absent fields; None and empty criteria are not judged',
                        'EXSLT regular expressions are those of Python (lxml), flags: i']
    for v in (3, 4):
        for n in ('values', 'groups', 'files', 'pairs'):
            db(n, v)
    vs = (4,) if chk.quick else (3, 4)
    chk.run_cases('values', [(v, a, t) for v in vs for a in ROT for t in VALUES], value_case,
                  'every searchable text attribute x every value of the text alphabet x {equality, patterns} x scopes x history x first')
    chk.run_cases('groups', [(v, a, t) for v in vs for a in ('name', 'notes') for t in VALUES], group_case, 'group name and notes, likewise')
    chk.run_cases('files', [(v, t) for v in (3, 4) for t in VALUES], file_case, 'attachment file names and ids x scopes (groups, entries, history entries)')
    chk.run_cases('misc', [(v, n, w) for v in (3, 4) for n in ('values', 'groups', 'files', 'pairs') for w in ('list', 'entries', 'groups', 'id')], misc_case,
                  'searches without criteria, by uuid and by id; listing properties', chunk=1)
    db('tags', 3), db('tags', 4)
    chk.run_cases('tags', [(v, c) for v in (3, 4) for k in (1, 2, 3) for c in (itertools.combinations(TAGS, k) if k < 3 else itertools.permutations(TAGS[:6], k)) if v == 4 or k == 1 or not chk.quick] + [(4, ('a',) * 3), (4, tuple('abc') * 5)], tags_case,
                  'tag texts x all queries of up to 3 tags x scopes')
    combos = [(v, c, True) for v in (3, 4) for k in (1, 2) for c in itertools.combinations(CRIT, k)]
    combos += [(v, c, False) for v in vs for c in itertools.combinations(CRIT, 3)]
    ALL = CRIT + MORE
    combos += [(v, c, False) for v in vs for k in (3, 4, 5) for c in itertools.combinations([a for a in ALL if a.startswith('string ')], k)]
    # many criteria at once: all of one value, and all but one
    combos += [(v, c, None) for v in vs for k in range(6, len(ALL) + 1) for c in (ALL[:k], ALL[-k:], ALL[:k][::-1])]
    if not chk.quick:
        combos += [(v, c, False) for v in vs for k in (4, 5) for c in itertools.combinations(CRIT, k)]
    chk.run_cases('combinations', combos, combo_case, 'all sets of up to %d criteria x matching/non-matching values x scopes' % (3 if chk.quick else 5))
    chk.run_cases('paths', [(v,) + c for v in vs for c in path_dbs(chk.quick)], path_case, 'all small trees x all paths over the name alphabet')
    chk.run_cases('scale', [(v, 'entries', k) for v in vs for k in range(len(BIG_CRIT))] + [(v, w, 0) for v in vs for w in ('groups', 'attachments')], big_case, 'thousands of results, nesting depth 90', chunk=1)
    for v in (3, 4):
        chk.explore('live-v%d' % v, REPLAY['live-v%d' % v], (2 if v == 4 else 1) + (0 if chk.quick else 1))
