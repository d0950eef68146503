"""C22: XML export.  After every step of all operation histories, and for every value in every place, the exported document - parsed by an
independent parser - is compared with the reference model and with the document of the saved file."""
import copy
import os
import pathlib
import shutil
import xml.etree.ElementTree as ET

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from .. import scale
from ..core import Violation, eq, expect, fail, first_diff
from ..domains import NAMES, TEXT
from ..world import Start, World, machine
from . import c05, c10

LEVEL = 'model_checking'
LABELS = ['root', 'g1', 'full', 'bare', 'prot', 'other']


def parse(data, what):
    try:
        return ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation('%s is not well-formed: %s' % (what, e), what)


def norm(e):
    """Element as a value; white space between elements and the header hash do not count"""
    kids = [norm(c) for c in e if c.tag != 'HeaderHash']
    return (e.tag, tuple(sorted(e.attrib.items())), None if len(e) and not (e.text or '').strip() else K.nt(e.text), kids)


def elements(kp):
    todo = [kp.root_group]
    while todo:
        g = todo.pop()
        yield 'group', g
        for e in g.entries:
            yield 'entry', e
            for h in e.history:
                yield 'snapshot', h
        todo += g.subgroups


def as_text(x):
    return x.encode('utf-8') if isinstance(x, str) else x


def check_export(w, files=True):
    kp = w.kp
    before = as_text(kp.xml())
    doc = parse(before, 'xml()')
    expect(before.lstrip().startswith(b'<?xml'), 'xml() has no declaration')
    db = w.check_saved()
    after = parse(as_text(kp.xml()), 'xml() after save')
    got, want = norm(doc), norm(db.xml)
    if got != want:
        fail('the export differs from the document of the saved file: %s' % first_diff(got, want), 'export')
    got = norm(after)
    if got != want:
        fail('the export after a save differs from the document of the saved file: %s' % first_diff(got, want), 'export after save')
    ref = copy.copy(db)
    ref.xml = doc
    try:
        v = K.ref_observe(ref)
    except R.RefError as e:
        raise Violation('the export is not a KeePass document: %s' % e, 'export: %s' % e)
    model = w.model_view()
    if v != model:
        fail('the export shows other content: %s' % first_diff(v, model), 'content')
    # elements: by uuid and, for snapshots, in order
    byid = {}
    for tag in ('Group', 'Entry'):
        for el in db.xml.iter(tag):
            byid.setdefault((tag, K.ref_uuid(el.findtext('UUID'))), []).append(el)
    seen = {}
    for kind, x in elements(kp):
        tag = 'Group' if kind == 'group' else 'Entry'
        k = tag, x.uuid.hex
        i = seen[k] = seen.get(k, -1) + 1
        for pretty in (False, True):
            e = parse(as_text(x.dump_xml(pretty_print=pretty)), 'dump_xml of a ' + kind)
            a, b = norm(e), norm(byid[k][i])
            if a != b:
                fail('dump_xml of a %s differs from the element in the file: %s' % (kind, first_diff(a, b)), 'dump ' + kind)
    if files:
        d = core.scratch()
        try:
            for n, t in (('new', os.path.join(d, 'a.xml')), ('longer file there', os.path.join(d, 'b.xml')), ('path', pathlib.Path(d) / 'c.xml')):
                if n[0] == 'l':
                    with open(t, 'wb') as f:
                        f.write(b'x' * 200000)
                kp.dump_xml(t)
                with open(t, 'rb') as f:
                    a = norm(parse(f.read(), 'dump_xml (%s)' % n))
                eq(a, norm(after), 'dump_xml (%s)' % n)
            eq(sorted(os.listdir(d)), ['a.xml', 'b.xml', 'c.xml'], 'files after dump_xml')
        finally:
            shutil.rmtree(d, ignore_errors=True)


def run_value(case):
    v, op = case
    w = World(c10.STARTS[v], LABELS)
    lab = w.do(op)
    check_export(w, False)
    w.do(('reload',))
    check_export(w, False)
    return lab


def run_style(case):
    """Documents as other programs serialise them"""
    data, db, comp, s = c05.build(dict(case))
    kp = K.PyKeePass(__import__('io').BytesIO(data), password=s['pw'])
    x = as_text(kp.xml())
    got, want = norm(parse(x, 'xml()')), norm(db.xml)
    if got != want:
        fail('the export differs from the stored document: %s' % first_diff(got, want), 'export')
    return 'same'


def run_scale(case):
    v, spec = case
    w = World(scale.start(v, spec), scale.labels_of(**dict(spec)))
    check_export(w)
    w.do(('add_entry', 'root', 'one more'))
    check_export(w)
    return 'same'


def ops(w):
    es, gs = w.entries(), w.groups()
    out = [('reload',), ('add_entry', 'root', 'a<b', 'u', 'p&q', 'l', 'n\nm', ('t1', 't2'), 'otp'), ('add_group', 'root', 'é'), ('add_binary', b'bin<>'), ('meta', 'database_name', 'N&N')]
    for e in es[:3]:
        out += [('set', e, 'password', 'é "\'<&>'), ('set', e, 'password', ''), ('prop', e, 'k', ' v ', True), ('prop', e, 'k', 'w\r\n', False), ('save_history', e), ('delete', e), ('trash', e),
                ('set', e, 'notes', '\r\n \t'), ('touch', e, True)]
        if w.node(e)['custom']:
            out.append(('delprop', e, sorted(w.node(e)['custom'])[0]))
        if w.m['binaries']:
            out.append(('attach', e, 0, 'f&'))
        if w.node(e)['attachments']:
            out.append(('detach', e, 0))
        if w.node(e)['history']:
            out.append(('delete_history', e, 0))
    for g in gs[:3]:
        out += [('set', g, 'name', ''), ('set', g, 'notes', ']]>')]
        if g != 'root':
            out += [('move_group', g, 'root'), ('delete', g), ('empty', g)]
        for e in es[:2]:
            out.append(('move_entry', e, g))
    if w.m['binaries']:
        out.append(('delete_binary', 0))
    return out


def extra(w, op, notes):
    check_export(w)


REPLAY = {'history-v%d' % v: machine(c10.STARTS[v], LABELS, ops, extra=extra, structure=False, saved=False) for v in (3, 4)}
REPLAY.update(values=run_value, styles=run_style, scale=run_scale)


def main(chk):
    chk.assumptions += ['white space between elements, comments and the header hash are not judged']
    chk.run_cases('values', [(v, op) for v in (3, 4) for op in c10.writes(TEXT, NAMES, entries=('full', 'prot') if chk.quick else ('full', 'bare', 'prot'))], run_value,
                  'every attribute x every text x element kind x format: export before and after a save, and after reload')
    st = [c05.t(version=v, variant=x, stream=st, compression=co) for v in (3, 4) for x in c05.VARIANTS for st in ('salsa20', 'chacha20', 'none') for co in (True, False)]
    chk.run_cases('styles', st, run_style, 'serialisation styles of other programs x inner stream x compression')
    big = [(v, s) for v in (3, 4) for s in (scale.t(entries=300, groups=100), scale.t(entries=2, depth=120), scale.t(entries=40, binaries=120), scale.t(entries=2, history=200), scale.t(entries=2, props=200))]
    chk.run_cases('scale', big, run_scale, 'large documents', chunk=1)
    for v in (3, 4):
        chk.explore('history-v%d' % v, REPLAY['history-v%d' % v], 2 if chk.quick else 3, dedupe_from=2)
