"""Building KeePass XML content (ElementTree) for the reference writer."""
import base64
import struct
import uuid as _uuid
import xml.etree.ElementTree as ET
from datetime import datetime, timezone

from . import refkdbx as R

EPOCH = datetime(1, 1, 1, tzinfo=timezone.utc)
ZERO = 'A' * 22 + '=='


def uid(label):
    return _uuid.UUID(bytes=R.det('uuid' + label, 16))


def b64(b):
    return base64.b64encode(b).decode()


def el(tag, text=None, *kids, **attr):
    e = ET.Element(tag, attr)
    e.text = text
    for k in kids:
        e.append(k)
    return e


def when(version, dt):
    if version == 4:
        return b64(struct.pack('<Q', int((dt - EPOCH).total_seconds())))
    return dt.strftime('%Y-%m-%dT%H:%M:%SZ')


T0 = datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc)


def times(v, ctime=T0, mtime=T0, atime=T0, expiry=T0, expires=False):
    return el('Times', None, el('LastModificationTime', when(v, mtime)), el('CreationTime', when(v, ctime)),
              el('LastAccessTime', when(v, atime)), el('ExpiryTime', when(v, expiry)), el('Expires', str(expires)),
              el('UsageCount', '0'), el('LocationChanged', when(v, T0)))


def string(key, value, protected=None):
    a = {} if protected is None else {'Protected': str(protected)}
    return el('String', None, el('Key', key), el('Value', value, **a))


def entry(v, label, fields=(), custom=(), tags=None, binaries=(), history=None, expires=False, expiry=T0, icon='0',
          autotype=True, atime=T0, mtime=T0, ctime=T0):
    """fields: dict Title/UserName/Password/URL/Notes/otp -> value (None: element without text)"""
    e = el('Entry', None, el('UUID', b64(uid(label).bytes)), el('IconID', icon))
    if tags is not None:
        e.append(el('Tags', tags))
    e.append(times(v, ctime, mtime, atime, expiry, expires))
    for k, val in dict(fields).items():
        e.append(string(k, val, True if k in ('Password', 'otp') else None))
    for k, val, prot in custom:
        e.append(string(k, val, prot))
    for fn, ref in binaries:
        e.append(el('Binary', None, el('Key', fn), el('Value', None, Ref=str(ref))))
    if autotype:
        e.append(el('AutoType', None, el('Enabled', 'True'), el('DataTransferObfuscation', '0'),
                    el('DefaultSequence', None),
                    el('Association', None, el('Window', None), el('KeystrokeSequence', None))))
    if history is not None:
        e.append(el('History', None, *history))
    return e


def group(v, label, name, *kids, notes=None, icon='48'):
    g = el('Group', None, el('UUID', b64(uid(label).bytes)), el('Name', name), el('Notes', notes), el('IconID', icon),
           times(v), el('IsExpanded', 'True'), el('EnableAutoType', 'null'), el('EnableSearching', 'null'))
    for k in kids:
        g.append(k)
    return g


def document(v, root_group, binaries3=(), meta_extra=(), root_extra=(), recyclebin=None, header_hash=True, days=(-1, -1)):
    """binaries3: KDBX3 list of (data, compressed; None: no such attribute)"""
    m = el('Meta', None, el('Generator', 'ref'))
    if v == 3 and header_hash:
        m.append(el('HeaderHash', None))
    for t, x in (('DatabaseName', None), ('DatabaseNameChanged', when(v, T0)), ('DatabaseDescription', None),
                 ('DatabaseDescriptionChanged', when(v, T0)), ('DefaultUserName', None),
                 ('DefaultUserNameChanged', when(v, T0)), ('MaintenanceHistoryDays', '365'), ('Color', None),
                 ('MasterKeyChanged', when(v, T0)), ('MasterKeyChangeRec', str(days[0])),
                 ('MasterKeyChangeForce', str(days[1]))):
        m.append(el(t, x))
    m.append(el('MemoryProtection', None, el('ProtectTitle', 'False'), el('ProtectPassword', 'True')))
    m.append(el('RecycleBinEnabled', 'True'))
    m.append(el('RecycleBinUUID', b64(recyclebin.bytes) if recyclebin else ZERO))
    m.append(el('RecycleBinChanged', when(v, T0)))
    m.append(el('HistoryMaxItems', '10'))
    m.append(el('HistoryMaxSize', '6291456'))
    if v == 3:
        bs = el('Binaries')
        for i, (d, comp) in enumerate(binaries3):
            bs.append(el('Binary', b64(R.gz(d) if comp else d) or None, ID=str(i), **({} if comp is None else {'Compressed': str(comp)})))
        m.append(bs)
    for x in meta_extra:
        m.append(x)
    r = el('Root', None, root_group, el('DeletedObjects'))
    for x in root_extra:
        r.append(x)
    return el('KeePassFile', None, m, r)
