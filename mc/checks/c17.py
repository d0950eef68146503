"""C17: protected values.  Breadth-first search over histories; after every step the saved file is opened by the reference
and searched for secrets, and protection marks are compared with the model."""
import base64
import hashlib

from .. import content as C
from .. import kp as K
from .. import refkdbx as R
from ..core import Violation, eq, expect
from ..domains import TEXT
from ..world import Start, World, entries_of, machine

LEVEL = 'model_checking'
LABELS = ['root', 'g1', 'full', 'bare', 'prot', 'fresh']
S = 'SECRET-%s-9f2e'


def doc(v):
    h = [C.entry(v, 'full', dict(Title='old', Password=S % 'hist', otp=S % 'histotp'), custom=[('pk', S % 'histcustom', True), ('k', 'hv', None)])]
    full = C.entry(v, 'full', dict(Title='t', UserName='u', Password=S % 'pw', otp=S % 'otp'),
                   custom=[('k', 'v', None), ('pk', S % 'custom', True), ('f', 'w', False)], history=h)
    bare = C.entry(v, 'bare', dict(Title='b'))
    prot = C.entry(v, 'prot', dict(Title=S % 'title', UserName=S % 'user', Password='', URL=S % 'url', Notes=S % 'notes'))
    for s in prot.findall('String'):
        s.find('Value').set('Protected', 'True')
    # a password another program chose not to protect
    unp = C.entry(v, 'unp', dict(Title='unp', Password='open'))
    for s in unp.findall('String'):
        s.find('Value').attrib.pop('Protected', None)
    return C.document(v, C.group(v, 'root', 'Root', full, C.group(v, 'g1', 'G', bare, prot, unp)), binaries3=[(b'one', True)])


LABELS.append('unp')
CONF = {'v3-salsa': dict(version=3), 'v4-chacha': dict(version=4), 'v4-salsa': dict(version=4, stream='salsa20'),
        'v3-chacha': dict(version=3, stream='chacha20')}
STARTS = {n: Start(doc(c['version']), compression=False, cipher='chacha20', binaries=[(1, b'one')] if c['version'] == 4 else (), **c)
          for n, c in CONF.items()}
FIELD = K.KEYS


class PWorld(World):
    """World plus a protection model: {(entry label, string key): bool}, for current entries; and per snapshot"""

    def __init__(self, start, labels):
        super().__init__(start, labels)
        self.prot = {}
        self.hprot = {}
        db = R.decode(start.data, tk=start.tk)
        for e in db.xml.iter('Entry'):
            u = K.ref_uuid(e.findtext('UUID'))
            d = {s.findtext('Key'): s.find('Value').get('Protected') == 'True' for s in e.findall('String')}
            if u in self.prot:
                self.hprot.setdefault(u, []).append(d)
            else:
                self.prot[u] = d

    def do(self, op):
        r = super().do(op)
        if op[0] == 'reload' or r == 'refused':
            return r
        if op[0] == 'add_entry':
            n = self.node('n%d' % (self.n - 1))
            self.prot[n['uuid']] = {'Title': False, 'UserName': False, 'Password': True}
            for f in ('url', 'notes', 'otp'):
                if n[f]:
                    self.prot[n['uuid']][FIELD[f]] = f == 'otp'
        elif op[0] == 'set' and op[2] in FIELD:
            n = self.node(op[1])
            k = FIELD[op[2]]
            d = self.prot[n['uuid']]
            if k not in d:
                d[k] = k in ('Password', 'otp')
            elif k in ('Password', 'otp') and not self.had:
                d[k] = True
        elif op[0] == 'prop':
            self.prot[self.node(op[1])['uuid']][op[2]] = bool(op[4]) if len(op) > 4 else False
        elif op[0] == 'delprop':
            self.prot[self.node(op[1])['uuid']].pop(op[2], None)
        elif op[0] == 'save_history':
            u = self.node(op[1])['uuid']
            self.hprot.setdefault(u, []).append(dict(self.prot[u]))
        elif op[0] == 'delete_history':
            u = self.node(op[1])['uuid']
            if op[2] == 'all':
                self.hprot[u] = []
            else:
                del self.hprot[u][op[2]]
        return r

    had = None


def step(w, op):
    if op[0] == 'set' and op[2] in ('password', 'otp'):
        w.had = w.node(op[1])[op[2]]
    return w.do(op)


def secrets(w):
    """Every value that is protected by the model"""
    out = set()
    for e in entries_of(w.m['root']):
        for x, d in [(e, w.prot[e['uuid']])] + list(zip(e['history'], w.hprot.get(e['uuid'], []))):
            for k, p in d.items():
                val = next((x[f] for f in K.FIELDS if FIELD[f] == k), None) if k in K.RESERVED else x['custom'].get(k, (None,))[0]
                if p and val:
                    out.add(val)
    return out


def check_file(w):
    data = K.save_bytes(w.kp, w.tk)
    try:
        db = R.decode(data, tk=w.tk)
    except R.RefError as e:
        raise Violation('saved file is rejected by the independent reader: %s' % e)
    raw = db.xml_bytes.decode('utf-8')
    sec = secrets(w)
    for s in sec:
        if len(s) < 6:
            continue
        expect(s not in raw, lambda: 'secret %r appears in clear text in the document' % s)
        expect(base64.b64encode(s.encode()).decode() not in raw, lambda: 'secret %r is only base64 encoded' % s)
        expect(s.encode() not in data, lambda: 'secret %r appears in the file' % s)
    seen = {}
    for e in db.xml.iter('Entry'):
        u = K.ref_uuid(e.findtext('UUID'))
        d = {s.findtext('Key'): s.find('Value').get('Protected') == 'True' for s in e.findall('String')}
        seen.setdefault(u, []).append(d)
    for e in entries_of(w.m['root']):
        want = [w.prot[e['uuid']]] + w.hprot.get(e['uuid'], [])
        eq(seen[e['uuid']], want, 'protection marks of %s' % w.name(e['uuid']))


def ops(w):
    es = w.entries()
    out = [('reload',)]
    out.append(('add_entry', 'g1', 'new', 'u', S % 'newpw', None, 'notes', None, S % 'newotp', None, True))
    out.append(('add_entry', 'root', 'new2', 'u', '', None, None, None, None, None, True))
    for e in [x for x in es if x in ('full', 'bare', 'prot', 'unp')] + [x for x in es if x.startswith('n')][:1]:
        out += [('set', e, 'password', S % (e + 'changed')), ('set', e, 'password', ''), ('set', e, 'otp', S % (e + 'chotp')),
                ('set', e, 'title', 'T'), ('set', e, 'notes', S % 'chnotes' if e == 'prot' else 'n'),
                ('prop', e, 'pk', S % (e + 'newprop'), True), ('prop', e, 'pk', 'plain', False), ('prop', e, 'q', S % (e + 'q'), True),
                ('save_history', e)]
        if 'pk' in w.node(e)['custom']:
            out.append(('delprop', e, 'pk'))
        if w.node(e)['history']:
            out.append(('delete_history', e, 0))
    out += [('move_entry', 'full', 'g1'), ('trash', 'full'), ('attach', 'full', 0, 'f'), ('delete', 'bare'), ('move_group', 'g1', 'root')]
    ok = set(es)
    return [o for o in out if o[0] in ('reload', 'add_entry', 'move_group') or o[1] in ok]


def mk(name):
    def run(history):
        w = PWorld(STARTS[name], LABELS)
        lab = 'start'
        for op in history:
            lab = '%s: %s' % (op[0], step(w, op))
        w.check(structure=False, saved=False)
        check_file(w)
        key = (w.key(), repr(sorted((w.name(u), sorted(d.items(), key=repr)) for u, d in w.prot.items())),
               repr(sorted((w.name(u), d) for u, d in w.hprot.items())))
        return hashlib.blake2b(repr(key).encode(), digest_size=12).digest(), ops(w), lab
    return run


REPLAY = {n: mk(n) for n in STARTS}

LENGTHS = (6, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65536)


def values():
    for n in STARTS:
        for i, val in enumerate([('V%d-' % k + 'xyzw' * k)[:k] for k in LENGTHS] + ['é%d中' % k * k for k in (3, 20, 300)] +
                                [t + 'SECRET' + t for t in TEXT if len(t) < 70]):
            yield n, val


def run_value(case):
    """One secret in every kind of protected place at once, edited around, twice saved"""
    name, val = case
    w = PWorld(STARTS[name], LABELS)
    for op in (('add_entry', 'g1', 'new', 'u', val + 'a', None, None, None, val + 'b', None, True), ('prop', 'bare', 'p"k', val + 'c', True),
               ('set', 'full', 'password', val + 'd'), ('save_history', 'full'), ('set', 'full', 'password', val + 'e'),
               ('set', 'prot', 'notes', val + 'f'), ('reload',), ('set', 'full', 'title', 'T'), ('delprop', 'full', 'pk'),
               ('set', 'bare', 'password', val + 'g')):
        step(w, op)
    w.check(structure=False, saved=False)
    check_file(w)
    return 'ok'


REPLAY['values'] = run_value


# every field, each in every state another program may have left it in: absent, empty, filled x mark True, False, none
INIT = {'no': None}
for _v in ('', 'x'):
    for _m in ('True', 'False', ''):
        INIT['%s%s' % (_v or 'e', _m or '-')] = _v, _m


def marks_doc(v):
    es = []
    for n, i in INIT.items():
        e = C.entry(v, n, {} if i is None else dict.fromkeys(K.RESERVED, i[0] and S % n), custom=[] if i is None else [('pk', i[0] and S % n, None)])
        for s in e.findall('String'):
            s.find('Value').attrib.pop('Protected', None)
            if i[1]:
                s.find('Value').set('Protected', i[1])
        es.append(e)
    return C.document(v, C.group(v, 'root', 'Root', *es))


MARKS = {n: Start(marks_doc(c['version']), compression=False, cipher='chacha20', **c) for n, c in CONF.items()}


def mark_cases(quick):
    vals = ('', S % 'A') if quick else ('', S % 'A', S % 'B', 'short')
    fields = K.FIELDS + ('pk',)
    for n in MARKS:
        for e in INIT:
            for f in fields:
                for a in vals:
                    for b in vals:
                        for mid in ((), ('reload',), ('save_history',), ('save_history', 'reload')):
                            yield n, e, f, a, f, b, mid
            for f in fields:
                for g in fields:
                    if f != g and not quick:
                        yield n, e, f, S % 'A', g, S % 'B', ('save_history',)


def run_marks(case):
    name, e, f, a, g, b, mid = case
    w = PWorld(MARKS[name], ['root'] + list(INIT))
    for fld, val in ((f, a), (g, b)):
        if fld == 'pk':
            step(w, ('prop', e, 'pk', val, val != S % 'B'))
        else:
            step(w, ('set', e, fld, val))
        check_file(w)
        for m in mid:
            step(w, ('reload',) if m == 'reload' else (m, e))
        if mid:
            check_file(w)
    w.check(structure=False, saved=False)
    return '%s %s' % (e, f)


REPLAY['marks'] = run_marks


def main(chk):
    for n in STARTS:
        chk.explore(n, REPLAY[n], 2 if chk.quick else 3, dedupe_from=2)
    chk.run_cases('values', values(), run_value, 'every length and text class of a secret x inner stream x format, in all protected places')
    chk.run_cases('marks', mark_cases(chk.quick), run_marks, 'every field x state left by another program x two values x snapshot/reload in between')
