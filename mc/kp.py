"""Driving and observing the real library through its public API, and the same view of a reference-decoded file."""
import base64
import io
import zlib
from datetime import datetime, timedelta, timezone

from pykeepass import PyKeePass
from pykeepass.exceptions import BinaryError

from . import content as C
from . import refkdbx as R

FIELDS = ('title', 'username', 'password', 'url', 'notes', 'otp')
KEYS = dict(title='Title', username='UserName', password='Password', url='URL', notes='Notes', otp='otp')
RESERVED = ('Title', 'UserName', 'Password', 'URL', 'Notes', 'otp')
# names the library refuses as custom property names although they are not string fields of the format
REFUSED = RESERVED + ('Tags', 'IconID', 'Times', 'History')


def nt(s):
    """Text of an element: the format does not distinguish absent and empty text"""
    return None if s == '' else s


# ---------------------------------------------------------------- real side

def open_bytes(data, tk=None, **kw):
    return PyKeePass(io.BytesIO(data), transformed_key=tk, **kw)


def save_bytes(kp, tk=None):
    b = io.BytesIO()
    kp.save(b, transformed_key=tk)
    return b.getvalue()


def obs_attachment(a):
    try:
        data = a.data
    except BinaryError:
        data = 'dangling'
    return (nt(a.filename), a.id, data)


def obs_times(x):
    return (x.ctime, x.mtime, x.atime, bool(x.expires), x.expiry_time)


def obs_entry(e, with_history=True, attachments=True):
    d = {f: nt(getattr(e, f)) for f in FIELDS}
    d['uuid'] = e.uuid.hex
    d['icon'] = nt(e.icon)
    d['tags'] = list(e.tags)
    d['times'] = obs_times(e)
    props = e.custom_properties
    d['custom'] = {k: (nt(v), bool(e.is_custom_property_protected(k))) for k, v in props.items()}
    try:
        d['autotype'] = (e.autotype_enabled, nt(e.autotype_sequence), nt(e.autotype_window))
    except AttributeError:
        d['autotype'] = None
    if attachments:
        d['attachments'] = [obs_attachment(a) for a in e.attachments]
    if with_history:
        d['history'] = [obs_entry(h, with_history=False, attachments=attachments) for h in e.history]
    return d


def obs_group(g):
    return dict(uuid=g.uuid.hex, name=nt(g.name), notes=nt(g.notes), icon=nt(g.icon), times=obs_times(g),
                entries=[obs_entry(e) for e in g.entries], groups=[obs_group(s) for s in g.subgroups])


def observe(kp):
    rb = kp.recyclebin_group
    return dict(root=obs_group(kp.root_group), binaries=list(kp.binaries), name=nt(kp.database_name),
                description=nt(kp.database_description), default_username=nt(kp.default_username),
                recyclebin=rb.uuid.hex if rb is not None else None,
                credchange=(kp.credchange_date, kp.credchange_required_days, kp.credchange_recommended_days))


# ---------------------------------------------------------------- reference side

def ref_time(db, text):
    if text is None:
        return None
    if db.version == 4:
        raw = base64.b64decode(text, validate=True)
        R.need(len(raw) == 8, 'time stamp length')
        return C.EPOCH + timedelta(seconds=int.from_bytes(raw, 'little'))
    t = datetime.fromisoformat(text[:-1] + '+00:00' if text.endswith('Z') else text)
    return t.replace(tzinfo=timezone.utc) if t.tzinfo is None else t.astimezone(timezone.utc)


def ref_uuid(text):
    raw = base64.b64decode(text, validate=True)
    R.need(len(raw) == 16, 'uuid length')
    return raw.hex()


def child(el, tag):
    x = el.find(tag)
    return None if x is None else nt(x.text)


def ref_times(db, el):
    t = el.find('Times')
    return (ref_time(db, child(t, 'CreationTime')), ref_time(db, child(t, 'LastModificationTime')),
            ref_time(db, child(t, 'LastAccessTime')), child(t, 'Expires') == 'True', ref_time(db, child(t, 'ExpiryTime')))


def ref_binaries(db):
    """Binaries by id.  KDBX3: the ID attribute is the id; ids must be 0..n-1"""
    if db.version == 4:
        return [d for _, d in db.binaries]
    out = {}
    bs = db.xml.find('Meta/Binaries')
    for b in bs if bs is not None else ():
        i = int(b.get('ID'))
        R.need(i not in out, 'duplicate binary ID %d' % i)
        raw = base64.b64decode(b.text or '', validate=True)
        out[i] = R.gunzip(raw) if raw and b.get('Compressed') == 'True' else raw
    R.need(sorted(out) == list(range(len(out))), 'binary IDs are not 0..n-1: %r' % sorted(out))
    return [out[i] for i in range(len(out))]


def ref_entry(db, el, bins, with_history=True):
    strings = {}
    prot = {}
    for s in el.findall('String'):
        k = child(s, 'Key')
        R.need(k not in strings, 'duplicate string field %r' % k)
        strings[k] = child(s, 'Value')
        prot[k] = s.find('Value').get('Protected') == 'True'
    d = {f: strings.get(KEYS[f]) for f in FIELDS}
    d['uuid'] = ref_uuid(child(el, 'UUID'))
    d['icon'] = child(el, 'IconID')
    t = child(el, 'Tags')
    d['tags'] = t.replace(',', ';').split(';') if t else []
    d['times'] = ref_times(db, el)
    d['custom'] = {k: (v, prot[k]) for k, v in strings.items() if k not in RESERVED}
    at = el.find('AutoType')
    d['autotype'] = None if at is None else (
        None if child(at, 'Enabled') is None else child(at, 'Enabled') == 'True', child(at, 'DefaultSequence'),
        nt(at.findtext('Association/Window')))
    atts = []
    for b in el.findall('Binary'):
        i = int(b.find('Value').get('Ref'))
        atts.append((child(b, 'Key'), i, bins[i] if i < len(bins) else 'dangling'))
    d['attachments'] = atts
    hs = el.findall('History')
    R.need(len(hs) <= 1, 'more than one History element')
    if with_history:
        d['history'] = [ref_entry(db, h, bins, False) for x in hs for h in x.findall('Entry')]
    else:
        R.need(not hs, 'history entry with a history of its own')
    return d


def ref_group(db, el, bins):
    for tag in ('UUID', 'Name', 'Times', 'Notes', 'IconID'):
        R.need(len(el.findall(tag)) <= 1, 'duplicate %s element in a group' % tag)
    return dict(uuid=ref_uuid(child(el, 'UUID')), name=child(el, 'Name'), notes=child(el, 'Notes'),
                icon=child(el, 'IconID'), times=ref_times(db, el),
                entries=[ref_entry(db, e, bins) for e in el.findall('Entry')],
                groups=[ref_group(db, g, bins) for g in el.findall('Group')])


def ref_observe(db):
    bins = ref_binaries(db)
    m = db.xml.find('Meta')
    root = ref_group(db, db.xml.find('Root/Group'), bins)
    rb = child(m, 'RecycleBinUUID')
    rb = ref_uuid(rb) if rb else None
    ids = set()

    def walk(g):
        ids.add(g['uuid'])
        for s in g['groups']:
            walk(s)
    walk(root)
    return dict(root=root, binaries=bins, name=child(m, 'DatabaseName'), description=child(m, 'DatabaseDescription'),
                default_username=child(m, 'DefaultUserName'), recyclebin=rb if rb in ids else None,
                credchange=(ref_time(db, child(m, 'MasterKeyChanged')), int(child(m, 'MasterKeyChangeForce')),
                            int(child(m, 'MasterKeyChangeRec'))))


# ---------------------------------------------------------------- templates

def template(doc, tkpw='pw', keyfile=None, **kw):
    """(file bytes, transformed key, RefDB) for a document built with mc.content"""
    enc = {k: kw.pop(k) for k in ('order', 'block', 'inner_order') if k in kw}
    db = R.RefDB(doc, **kw)
    comp = R.composite(tkpw, keyfile)
    tk = R.transform(db, comp)
    return R.encode(db, tk, **enc), tk, db


def simple_template(version, groups=(), entries=(), **kw):
    doc = C.document(version, C.group(version, 'root', 'Root', *(list(entries) + list(groups))))
    return template(doc, version=version, **kw)


STD_ATTRS = {'_password', '_keyfile', 'filename', 'kdbx'}


def hidden_state(kp):
    """Fingerprint of mutable state that is not part of the document: extra attributes of the database object
    and mutable module-level containers of the package (a cache added anywhere shows up here)."""
    import sys
    out = []
    for k, v in sorted(vars(kp).items()):
        if k not in STD_ATTRS:
            out.append((k, fp(v)))
    for name, mod in sorted(sys.modules.items()):
        if name == 'pykeepass' or name.startswith('pykeepass.'):
            for k, v in sorted(vars(mod).items()):
                if isinstance(v, (dict, list, set)) and not k.startswith('__'):
                    out.append((name, k, len(v)))
    return tuple(out)


def fp(v):
    try:
        r = repr(v)
    except Exception as e:
        r = type(e).__name__
    return r[:500]
