"""C12: field references.  All reference graphs on up to three entries from an alphabet of field contents; all pairs of wanted and searched
field with decoys; created references after edits."""
import itertools
import re
import resource
import uuid

from .. import content as C
from .. import core
from .. import kp as K
from ..core import eq, expect, fail
from ..domains import TEXT

LEVEL = 'model_checking'
LET = dict(T='title', U='username', P='password', A='url', N='notes', I='uuid')
NAME = {v: k for k, v in LET.items()}
REF = re.compile(r'\{REF:([TUPANI])@([TUPANI]):([^}]+)\}')
NONE = 'unresolvable'


# ---------------------------------------------------------------- oracle
def lookup(model, letter, value):
    """Entries of the model named by letter:value"""
    if letter == 'I':
        try:
            u = uuid.UUID(value)
        except ValueError:
            return []
        return [e for e in model if e['uuid'] == u.hex]
    return [e for e in model if e[LET[letter]] == value]


def resolve(model, text, pending=()):
    """Set of acceptable results (several when a reference names several entries): strings or NONE"""
    out = {''}
    pos = 0
    for m in REF.finditer(text):
        lit = text[pos:m.start()]
        pos = m.end()
        subs = set()
        if m.group(0) in pending:
            subs.add(NONE)
        else:
            hits = lookup(model, m.group(2), m.group(3))
            if not hits:
                subs.add(NONE)
            for e in hits:
                f = e[LET[m.group(1)]] or ''
                subs |= {f.upper()} if m.group(1) == 'I' else resolve(model, f, pending + (m.group(0),))
        if NONE in subs and len(subs) == 1:
            return {NONE}
        new = set()
        for o in out:
            for s in subs:
                new.add(NONE if NONE in (o, s) else o + lit + s)
        out = new
    return {o if o is NONE else o + text[pos:] for o in out}


def check(kp, model, text, what, fn=None):
    got = fn() if fn else kp.deref(text)
    if text is None or text == '':
        expect(not got, lambda: '%s: dereferencing %r gives %r' % (what, text, got))
        return 'empty'
    want = resolve(model, text)
    if 'I@' in text:        # an identifier may be given as text or as UUID object, in either case
        got = got.hex.upper() if isinstance(got, uuid.UUID) else got
        norm = lambda s: s if s is NONE or s is None else s.replace('-', '').upper()
        got, want = norm(got), {norm(w) for w in want}
    if got is None:
        expect(NONE in want, lambda: '%s: dereferencing %r gives None, expected %r' % (what, text, sorted(want)), 'none')
        return 'unresolvable'
    if got == '' and '' in want:
        return 'empty result'
    expect(got in want and got != NONE, lambda: '%s: dereferencing %r gives %r, expected %s' % (what, text, got, sorted(map(str, want))), 'wrong')
    return 'same' if got == text else 'resolved'


def model_of(kp):
    out = []

    def go(g):
        for e in g.entries:
            out.append(dict(uuid=e.uuid.hex, **{f: K.nt(getattr(e, f)) for f in ('title', 'username', 'password', 'url', 'notes')}))
        for s in g.subgroups:
            go(s)
    go(kp.root_group)
    return out


def base_doc(v, n, fields, hist=None):
    es = [C.entry(v, 'e%d' % i, {K.KEYS[k]: x for k, x in fields(i).items()}, history=hist(i) if hist else None) for i in range(n)]
    return C.document(v, C.group(v, 'root', 'Root', *(es[:1] + [C.group(v, 'g', 'G', *es[1:])])))


# ---------------------------------------------------------------- graphs
def alphabet(n):
    r = ['{REF:U@I:%s}' % C.uid('e%d' % j).hex.upper() for j in range(n)]
    t = ['{REF:U@T:t%d}' % j for j in range(n)]
    out = [None, 'p', 'a{b}c', '{REF:U@I:%s}' % ('0' * 32), '{REF:T@I:%s}' % C.uid('e0').hex.upper()]
    out += r + t + ['x%sy' % a for a in r]
    out += ['%s%s' % p for p in itertools.product(r, repeat=2)] if n < 3 else ['%s %s' % (r[0], r[1]), '%s%s' % (r[2], r[0]), '%s-%s' % (r[1], r[1]), t[2] + r[1]]
    out += ['<%s|%s|%s>' % tuple((r * 3)[:3])]
    return out


GT = {n: K.template(base_doc(4, n, lambda i: dict(title='t%d' % i, username='u', password='p')), version=4) for n in (1, 2, 3)}


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))


def graph(case):
    n, pick = case
    limit()
    al = alphabet(n)
    data, tk, _ = GT[n]
    kp = K.open_bytes(data, tk)
    es = {e.title: e for e in kp.entries}
    for i, k in enumerate(pick):
        if al[k] is not None:
            es['t%d' % i].username = al[k]
        else:
            es['t%d' % i].username = ''
    model = model_of(kp)
    labels = []
    for i in range(n):
        e = es['t%d' % i]
        labels.append(check(kp, model, K.nt(e.username), 'entry %d' % i, lambda: e.deref('username')))
        labels.append(check(kp, model, e.ref('username'), 'reference to entry %d' % i))
    labels.append(check(kp, model, ''.join('{REF:U@T:t%d}/' % i for i in range(n)), 'combined'))
    eq(model_of(kp), model, 'database after dereferencing')
    return ','.join(sorted(set(labels)))


# ---------------------------------------------------------------- wanted x searched field, with decoys
VALS = [t for t in TEXT if t and '}' not in t and len(t) < 2000]
OUTV = [t for t in TEXT if len(t) < 2000] + ['\\g<0>', '\\0', '$1', '{S:x}', '}', '{', 'REF:T@I:x', '{REF:X@I:abc}', '{REF:T@I', '{REF T@I:1}', '{{}}', 'x}{y']


def fields(case):
    w, s, value = case
    limit()
    v = 4 if len(value) % 2 else 3
    want = {k: 'W-' + k for k in ('title', 'username', 'password', 'url', 'notes')}
    target = dict(want)
    if s != 'I':
        target[LET[s]] = value
    decoys = []
    for f in ('title', 'username', 'password', 'url', 'notes'):
        for x in (value + 'x', 'x' + value, value.upper() if value.upper() != value else value + 'U', value.strip() + ' '):
            if x != value:
                decoys.append({f: x})
        if f != LET[s]:
            decoys.append({f: value})
    # entries that must not be found come first; the target is the last entry, and a snapshot matches too
    old = C.entry(v, 'e0', {K.KEYS[k]: x for k, x in dict({k: 'old' for k in want}, **({LET[s]: value} if s != 'I' else {})).items()})
    es = [C.entry(v, 'd%d' % i, {K.KEYS[k]: x for k, x in dict({k: 'D%d' % i for k in want}, **d).items()}, history=[old] if i == 0 else None) for i, d in enumerate(decoys)]
    es.append(C.entry(v, 'target', {K.KEYS[k]: x for k, x in target.items()}))
    doc = C.document(v, C.group(v, 'root', 'Root', *(es[:-2] + [C.group(v, 'g', value, *es[-2:])])))
    data, tk, _ = K.template(doc, version=v)
    kp = K.open_bytes(data, tk)
    model = model_of(kp)
    sv = C.uid('target').hex.upper() if s == 'I' else value
    text = '{REF:%s@%s:%s}' % (w, s, sv)
    labels = {check(kp, model, text, 'single')}
    labels.add(check(kp, model, 'pre ' + text + ' post', 'with text'))
    labels.add(check(kp, model, text + text, 'twice'))
    labels.add(check(kp, model, text + '{REF:N@I:%s}' % C.uid('target').hex.upper(), 'two different'))
    labels.add(check(kp, model, text + '{REF:%s@%s:no such value}' % (w, s), 'second one broken'))
    if s == 'I':
        labels.add(check(kp, model, text.replace(sv, sv.lower()), 'lower case identifier'))
        for bad in ('xyz', '0', sv + '0', sv[:-1], value):
            labels.add(check(kp, model, '{REF:%s@I:%s}' % (w, bad), 'no identifier'))
    return ','.join(sorted(labels))


# ---------------------------------------------------------------- results are taken literally
def literal(case):
    attr, value, pre, post = case
    limit()
    data, tk, _ = GT[2]
    kp = K.open_bytes(data, tk)
    a, b = kp.find_entries(title='t0', first=True), kp.find_entries(title='t1', first=True)
    setattr(a, attr, value)
    model = model_of(kp)
    r = a.ref(attr)
    labels = {check(kp, model, r, 'reference')}
    labels.add(check(kp, model, pre + r + post, 'reference in text'))
    b.notes = pre + r + post
    model = model_of(kp)
    labels.add(check(kp, model, b.ref('notes'), 'second level'))
    # the reference follows the entry: edits, moves, the recycle bin, saving
    setattr(a, attr, 'changed')
    model = model_of(kp)
    eq(kp.deref(r), 'changed', 'reference after editing the field')
    kp.move_entry(a, b.group)
    eq(kp.deref(r), 'changed', 'reference after moving the entry')
    a.save_history()
    setattr(a, attr, value)
    kp.trash_entry(a)
    model = model_of(kp)
    labels.add(check(kp, model, r, 'reference to a trashed entry'))
    kp = K.open_bytes(K.save_bytes(kp, tk), tk)
    labels.add(check(kp, model, r, 'reference after reloading'))
    e = kp.find_entries(uuid=C.uid('e0'), first=True)
    kp.delete_entry(e)
    eq(kp.deref(r), None, 'reference to a deleted entry')
    return ','.join(sorted(labels))


def chain(case):
    n, close, style = case
    limit()
    v = 3
    def f(i):
        nxt = (i + 1) % n if close else i + 1
        if nxt == n:
            t = 'end'
        else:
            r = '{REF:P@I:%s}' % C.uid('e%d' % nxt).hex.upper() if style != 'title' else '{REF:P@T:t%d}' % nxt
            t = {'plain': r, 'title': r, 'text': '(%s)' % r, 'double': r + r if n <= 12 or close else r}[style]
        return dict(title='t%d' % i, username='u', password=t)
    data, tk, _ = K.template(base_doc(v, n, f), version=v)
    kp = K.open_bytes(data, tk)
    model = model_of(kp)
    e = kp.find_entries(title='t0', first=True)
    return check(kp, model, e.password, 'chain of %d' % n, lambda: e.deref('password'))


def repeat(case):
    """One text with many references, to one entry and to several, repeated and interleaved"""
    n, k = case
    limit()
    data, tk, _ = K.template(base_doc(4, k, lambda i: dict(title='t%d' % i, username='u%d' % i, password='p%d' % i)), version=4)
    kp = K.open_bytes(data, tk)
    model = model_of(kp)
    refs = ['{REF:%s@I:%s}' % (f, C.uid('e%d' % i).hex.upper()) for i in range(k) for f in 'TUP']
    labels = {check(kp, model, '/'.join(refs[j % len(refs)] for j in range(n)), '%d references' % n)}
    labels.add(check(kp, model, refs[0] * n, 'one reference %d times' % n))
    labels.add(check(kp, model, refs[0] * n + '{REF:T@T:none}', 'the last one broken'))
    e = kp.entries[0]
    e.notes = ' '.join(refs[j % len(refs)] for j in range(n) if j % len(refs))
    labels.add(check(kp, model_of(kp), e.notes, 'in a field', lambda: e.deref('notes')))
    return ','.join(sorted(labels))


def plain(case):
    value, = case
    data, tk, _ = GT[2]
    kp = K.open_bytes(data, tk)
    eq(kp.deref(value), value, 'value without references')
    e = kp.find_entries(title='t0', first=True)
    if value:
        e.notes = value
        eq(e.deref('notes'), value, 'field without references')
    for f in ('url', 'otp'):
        eq(e.deref(f), None, 'absent field')
    return 'same'


REPLAY = dict(graph=graph, fields=fields, literal=literal, chain=chain, plain=plain, repeat=repeat)


def main(chk):
    core.CASE_LIMIT = 20
    chk.assumptions += ['references use upper case letters; nested references and references assembled from pieces of text are not judged',
                        'where a reference names several entries, any of them is accepted']
    g = []
    for n in (1, 2, 3):
        g += [(n, p) for p in itertools.product(range(len(alphabet(n))), repeat=n)]
    chk.run_cases('graph', g, graph, 'all assignments of the content alphabet to 1, 2 and 3 entries')
    chk.run_cases('fields', [(w, s, x) for w in LET for s in LET for x in VALS], fields, 'wanted field x searched field x searched value, with decoys in every other field and in history')
    chk.run_cases('literal', [(a, x, p, s) for a in ('title', 'username', 'password', 'url', 'notes') for x in OUTV for p, s in (('', ''), ('a{', '}b'), ('\\', '{REF:'))], literal,
                  'referenced field x value x surrounding text, followed through edits, moves, trash and reload')
    chk.run_cases('chain', [(n, c, s) for n in list(range(1, 14)) + [20, 50, 150, 300] for c in (False, True) for s in ('plain', 'title', 'text', 'double')], chain,
                  'chains and cycles of references')
    chk.run_cases('repeat', [(n, k) for n in (1, 2, 5, 8, 9, 10, 16, 17, 33, 65, 129, 257, 1000) for k in (1, 2, 11, 40)], repeat, 'texts with up to 1000 references')
    chk.run_cases('plain', [(x,) for x in OUTV if not REF.search(x)], plain, 'values without references')
