"""A real database and its reference model in lock step.

The model is the dictionary `mc.kp.ref_observe` yields for the start file (decoded by the independent codec), updated by
the operations' documented meaning.  `World.do(op)` performs one operation on both sides; `World.check()` compares the
complete public view, the structural views and - decoded independently - the saved file with the model."""
import copy
from datetime import datetime, timedelta, timezone

from pykeepass.exceptions import BinaryError, UnableToSendToRecycleBin

from . import content as C
from . import kp as K
from . import refkdbx as R
from .core import Violation, expect, fail, first_diff

NOW_AFTER = datetime(2024, 1, 1, tzinfo=timezone.utc)
SEC = timedelta(seconds=1)


class Start:
    """A start state: file bytes, transformed key, decoded model; built once in the parent process"""

    def __init__(self, doc, **kw):
        self.data, self.tk, _ = K.template(doc, **kw)
        self.model = K.ref_observe(R.decode(self.data, tk=self.tk))


def walk(g):
    yield g
    for s in g['groups']:
        yield from walk(s)


def entries_of(g):
    for x in walk(g):
        yield from x['entries']


class World:
    def __init__(self, start, labels=()):
        self.tk = start.tk
        self.kp = K.open_bytes(start.data, start.tk)
        self.m = copy.deepcopy(start.model)
        self.label = {C.uid(l).hex: l for l in labels}
        self.n = 0
        self.h = {}
        self.gone = set()
        self.acquire()

    # ---- handles and model nodes by label
    def acquire(self):
        self.h = {}

        def go(g):
            self.h[self.name(g.uuid.hex)] = g
            for e in g.entries:
                self.h[self.name(e.uuid.hex)] = e
            for s in g.subgroups:
                go(s)
        go(self.kp.root_group)

    def name(self, uhex):
        return self.label.get(uhex, uhex)

    def node(self, label):
        for g in walk(self.m['root']):
            if self.name(g['uuid']) == label:
                return g
            for e in g['entries']:
                if self.name(e['uuid']) == label:
                    return e
        fail('model has no element %r' % label)

    def parent(self, node):
        for g in walk(self.m['root']):
            if any(x is node for x in g['entries']) or any(x is node for x in g['groups']):
                return g
        return None

    def groups(self):
        return [self.name(g['uuid']) for g in walk(self.m['root'])]

    def entries(self):
        return [self.name(e['uuid']) for e in entries_of(self.m['root'])]

    def detach(self, node):
        p = self.parent(node)
        for k in ('entries', 'groups'):
            p[k][:] = [x for x in p[k] if x is not node]
        return node

    def new_label(self, uhex):
        for g in walk(self.m['root']):
            expect(g['uuid'] != uhex and all(e['uuid'] != uhex for e in g['entries']), 'new element has an identifier already in use')
        l = 'n%d' % self.n
        self.n += 1
        self.label[uhex] = l
        return l

    # ---- operations
    def do(self, op):
        return getattr(self, 'op_' + op[0])(*op[1:])

    def refused(self, fn, what, exc=Exception):
        try:
            fn()
        except exc:
            return 'refused'
        fail('%s was not refused' % what)

    def fresh_times(self, x, expires=False, expiry=None, t=None):
        now = datetime.now(timezone.utc)
        lo = (t or now) - SEC
        for f in ('ctime', 'mtime', 'atime'):
            v = getattr(x, f)
            expect(v is not None and lo - SEC <= v <= now + SEC, '%s of a new element is %r' % (f, v))
        expect(bool(x.expires) is expires, 'expires of a new element is %r' % x.expires)
        if expiry is not None:
            expect(abs(x.expiry_time - expiry) < SEC, 'expiry time of a new element is %r, given %r' % (x.expiry_time, expiry))
        return K.obs_times(x)

    def op_add_entry(self, g, title, username='u', password='p', url=None, notes=None, tags=None, otp=None, icon=None,
                     force=False):
        mg = self.node(g)
        def add():
            return self.kp.add_entry(self.h[g], title, username, password, url=url, notes=notes,
                                     tags=list(tags) if isinstance(tags, tuple) else tags, otp=otp, icon=icon,
                                     force_creation=force)
        if not force and title and username and any(e['title'] == K.nt(title) and e['username'] == K.nt(username) for e in mg['entries']):
            return self.refused(add, 'adding a duplicate entry')
        t = datetime.now(timezone.utc)
        e = add()
        l = self.new_label(e.uuid.hex)
        self.h[l] = e
        if isinstance(tags, str):
            tags = tags.split(';')
        mg['entries'].append(dict(
            title=K.nt(title), username=K.nt(username), password=K.nt(password), url=K.nt(url), notes=K.nt(notes),
            otp=K.nt(otp), uuid=e.uuid.hex, icon=K.nt(icon), tags=list(tags or []), times=self.fresh_times(e, t=t),
            custom={}, autotype=(True, None, None), attachments=[], history=[]))
        return 'added'

    def op_add_group(self, g, name, icon=None, notes=None):
        t = datetime.now(timezone.utc)
        x = self.kp.add_group(self.h[g], name, icon=icon, notes=notes)
        l = self.new_label(x.uuid.hex)
        self.h[l] = x
        self.node(g)['groups'].append(dict(uuid=x.uuid.hex, name=K.nt(name), notes=K.nt(notes), icon=K.nt(icon),
                                           times=self.fresh_times(x, t=t), entries=[], groups=[]))
        return 'added'

    def op_move_entry(self, e, g):
        self.kp.move_entry(self.h[e], self.h[g])
        self.node(g)['entries'].append(self.detach(self.node(e)))
        return 'moved'

    def op_append(self, g, *es):
        self.h[g].append([self.h[e] for e in es])
        for e in es:
            self.node(g)['entries'].append(self.detach(self.node(e)))
        return 'moved'

    def inside(self, node, anc):
        return any(x is node for x in walk(anc))

    def op_move_group(self, g, dest):
        mg, md = self.node(g), self.node(dest)
        if self.inside(md, mg):
            return self.refused(lambda: self.kp.move_group(self.h[g], self.h[dest]), 'moving a group into its own subtree')
        self.kp.move_group(self.h[g], self.h[dest])
        md['groups'].append(self.detach(mg))
        return 'moved'

    def op_delete(self, x, how='kp'):
        node = self.node(x)
        if how == 'handle':
            self.h[x].delete()
        elif 'entries' in node:
            self.kp.delete_group(self.h[x])
        else:
            self.kp.delete_entry(self.h[x])
        self.drop(node)
        return 'deleted'

    def drop(self, node):
        self.detach(node)
        for g in (walk(node) if 'entries' in node else ()):
            self.h.pop(self.name(g['uuid']), None)
            for e in g['entries']:
                self.h.pop(self.name(e['uuid']), None)
        self.h.pop(self.name(node['uuid']), None)

    def op_empty(self, g):
        self.kp.empty_group(self.h[g])
        node = self.node(g)
        for x in node['groups'][:] + node['entries'][:]:
            self.drop(x)
        return 'emptied'

    def op_reindex(self, e, i):
        self.h[e].reindex(i)
        node = self.node(e)
        p = self.parent(node)
        p['entries'][:] = [x for x in p['entries'] if x is not node]
        p['entries'].insert(i, node)
        return 'reindexed'

    def op_set(self, x, attr, value):
        """Plain attribute of an entry or a group"""
        setattr(self.h[x], attr, list(value) if isinstance(value, tuple) else value)
        n = self.node(x)
        if attr == 'tags':
            n['tags'] = list(value) if isinstance(value, tuple) else value.split(';') if value else []
            if n['tags'] == ['']:
                n['tags'] = []
        elif attr in ('autotype_enabled', 'autotype_sequence', 'autotype_window'):
            a = list(n['autotype'])
            a[('autotype_enabled', 'autotype_sequence', 'autotype_window').index(attr)] = K.nt(value)
            n['autotype'] = tuple(a)
        elif attr in ('ctime', 'mtime', 'atime', 'expires', 'expiry_time'):
            a = list(n['times'])
            a[('ctime', 'mtime', 'atime', 'expires', 'expiry_time').index(attr)] = value
            n['times'] = tuple(a)
        else:
            n[attr] = K.nt(value)
        return 'set ' + attr

    def op_set_uuid(self, x, label):
        u = C.uid(label)
        n = self.node(x)
        old = self.name(n['uuid'])
        self.h[x].uuid = u
        if self.m['recyclebin'] == n['uuid']:
            self.m['recyclebin'] = None
        n['uuid'] = u.hex
        self.label[u.hex] = label
        self.h[label] = self.h.pop(old)
        return 'set uuid'

    def op_meta(self, attr, value):
        setattr(self.kp, attr, value)
        self.m[dict(database_name='name', database_description='description', default_username='default_username')[attr]] = K.nt(value)
        return 'set ' + attr

    def op_days(self, which, value):
        c = list(self.m['credchange'])
        setattr(self.kp, 'credchange_%s_days' % which, value)
        c[1 if which == 'required' else 2] = value
        self.m['credchange'] = tuple(c)
        return 'set days'

    def op_prop(self, e, key, value, protect=False):
        if key in K.REFUSED:
            return self.refused(lambda: self.h[e].set_custom_property(key, value, protect), 'reserved property name')
        self.h[e].set_custom_property(key, value, protect=protect)
        self.node(e)['custom'][key] = (K.nt(value), bool(protect))
        return 'property'

    def op_delprop(self, e, key):
        n = self.node(e)
        if key not in n['custom']:
            return self.refused(lambda: self.h[e].delete_custom_property(key), 'deleting an absent property', AttributeError)
        self.h[e].delete_custom_property(key)
        del n['custom'][key]
        return 'property deleted'

    def op_touch(self, x, modify):
        before = datetime.now(timezone.utc)
        self.h[x].touch(modify=modify)
        after = datetime.now(timezone.utc)
        n = self.node(x)
        t = list(n['times'])
        h = self.h[x]
        for i, f in ((2, 'atime'),) + (((1, 'mtime'),) if modify else ()):
            v = getattr(h, f)
            expect(before - SEC < v <= after, '%s after touch is %r' % (f, v))
            t[i] = v
        n['times'] = tuple(t)
        return 'touched'

    # ---- history
    def op_save_history(self, e):
        self.h[e].save_history()
        n = self.node(e)
        n['history'].append(copy.deepcopy({k: v for k, v in n.items() if k != 'history'}))
        return 'snapshot'

    def op_delete_history(self, e, i, how='entry'):
        """i: position, or 'all'"""
        n = self.node(e)
        if i == 'all':
            self.h[e].delete_history(all=True)
            n['history'][:] = []
        else:
            h = self.h[e].history[i]
            if how == 'handle':
                h.delete()
            elif how == 'kp':
                self.kp.delete_entry(h)
            else:
                self.h[e].delete_history(h)
            del n['history'][i]
        return 'snapshot deleted'

    # ---- binaries
    def op_add_binary(self, data, *args):
        i = self.kp.add_binary(data, *args)
        expect(i == len(self.m['binaries']), 'add_binary returned id %r, expected %d' % (i, len(self.m['binaries'])))
        self.m['binaries'].append(data)
        for e in self.all_entries():
            e['attachments'] = [(f, j, data if j == i else d) for f, j, d in e['attachments']]
        return 'binary added'

    def all_entries(self):
        for e in entries_of(self.m['root']):
            yield e
            yield from e['history']

    def op_delete_binary(self, i):
        if not 0 <= i < len(self.m['binaries']):
            return self.refused(lambda: self.kp.delete_binary(i), 'deleting binary %d' % i, BinaryError)
        self.kp.delete_binary(i)
        del self.m['binaries'][i]
        for e in self.all_entries():
            e['attachments'] = [(f, j - (j > i), d) for f, j, d in e['attachments'] if j != i]
        return 'binary deleted'

    def op_attach(self, e, i, filename):
        a = self.h[e].add_attachment(i, filename)
        d = self.m['binaries'][i] if i < len(self.m['binaries']) else 'dangling'
        expect(K.obs_attachment(a) == (K.nt(filename), i, d), 'add_attachment returned %r' % (K.obs_attachment(a),))
        self.node(e)['attachments'].append((K.nt(filename), i, d))
        return 'attached'

    def op_detach(self, e, k, how='entry'):
        a = self.h[e].attachments[k]
        if how == 'entry':
            self.h[e].delete_attachment(a)
        else:
            a.delete()
        del self.node(e)['attachments'][k]
        return 'detached'

    def op_attachment_set(self, e, k, attr, value):
        a = self.h[e].attachments[k]
        setattr(a, attr, value)
        f, i, d = self.node(e)['attachments'][k]
        if attr == 'id':
            i, d = value, self.m['binaries'][value]
        else:
            f = K.nt(value)
        self.node(e)['attachments'][k] = (f, i, d)
        return 'attachment set'

    # ---- recycle bin
    def op_trash(self, x):
        n = self.node(x)
        h = self.h[x]
        isgroup = 'entries' in n
        fn = self.kp.trash_group if isgroup else self.kp.trash_entry
        rb = next((g for g in walk(self.m['root']) if g['uuid'] == self.m['recyclebin']), None)
        if n is self.m['root'] or n is rb:
            return self.refused(lambda: fn(h), 'trashing the root group or the recycle bin', UnableToSendToRecycleBin)
        if rb is not None and isgroup and self.inside(rb, n):
            return self.refused(lambda: fn(h), 'trashing a group that contains the recycle bin')
        t = datetime.now(timezone.utc)
        fn(h)
        if rb is None:
            g = self.kp.recyclebin_group
            expect(g is not None, 'no recycle bin after trashing')
            expect(g.parentgroup.uuid.hex == self.m['root']['uuid'], 'new recycle bin is not in the root group')
            l = self.new_label(g.uuid.hex)
            self.h[l] = g
            rb = dict(uuid=g.uuid.hex, name=g.name, notes=K.nt(g.notes), icon=K.nt(g.icon),
                      times=self.fresh_times(g, t=t), entries=[], groups=[])
            self.m['root']['groups'].append(rb)
            self.m['recyclebin'] = rb['uuid']
        rb['groups' if isgroup else 'entries'].append(self.detach(n))
        return 'trashed'

    # ---- persistence
    def op_reload(self):
        data = K.save_bytes(self.kp, self.tk)
        self.kp = K.open_bytes(data, self.tk)
        self.acquire()
        return 'reloaded'

    # ---- comparison
    def model_view(self):
        m = self.m
        live = {g['uuid'] for g in walk(m['root'])}
        if m['recyclebin'] not in live:
            return dict(m, recyclebin=None)
        return m

    def check(self, structure=True, saved=True):
        got = K.observe(self.kp)
        want = self.model_view()
        if got != want:
            raise Violation('public view differs from the reference: ' + str(first_diff(got, want)), 'view')
        if structure:
            self.check_structure()
        if saved:
            self.check_saved()

    def check_saved(self):
        data = K.save_bytes(self.kp, self.tk)
        try:
            db = R.decode(data, tk=self.tk)
            v = K.ref_observe(db)
        except R.RefError as e:
            raise Violation('saved file is rejected by the independent reader: %s' % e, 'saved: %s' % e)
        want = self.model_view()
        if v != want:
            raise Violation('saved file, read by the independent reader, differs: ' + str(first_diff(v, want)), 'saved')
        return db

    def check_structure(self):
        kp = self.kp
        ents = [e['uuid'] for e in entries_of(self.m['root'])]
        grps = [g['uuid'] for g in walk(self.m['root'])]
        got = [e.uuid.hex for e in kp.entries]
        expect(sorted(got) == sorted(ents), lambda: 'entries lists %r, expected %r' % (got, ents))
        gotg = [g.uuid.hex for g in kp.groups]
        expect(sorted(gotg) == sorted(grps), lambda: 'groups lists %r, expected %r' % (gotg, grps))
        expect(kp.root_group.uuid.hex == self.m['root']['uuid'], 'root group changed')

        def go(g, path, parent):
            l = self.name(g['uuid'])
            h = self.h.get(l)
            expect(h is not None, 'no handle for %s' % l)
            expect(h.uuid.hex == g['uuid'] and K.nt(h.name) == g['name'], lambda: 'handle of group %s shows %s %r' % (l, h.uuid, h.name))
            pg = h.parentgroup
            expect((pg.uuid.hex if pg is not None else None) == parent, 'parentgroup of group %s' % l)
            expect(h.is_root_group is (parent is None), 'is_root_group of %s' % l)
            hp = [K.nt(x) for x in h.path]
            expect(hp == path, lambda: 'path of group %s: %r, expected %r' % (l, h.path, path))
            if parent is not None:
                f = kp.find_groups(path=hp)
                expect(f is not None and [K.nt(x) for x in f.path] == hp, lambda: 'group %s is not found by its path %r' % (l, hp))
            expect([e.uuid.hex for e in h.entries] == [e['uuid'] for e in g['entries']], 'entries of handle %s' % l)
            expect([s.uuid.hex for s in h.subgroups] == [s['uuid'] for s in g['groups']], 'subgroups of handle %s' % l)
            f = kp.find_groups(uuid=h.uuid, first=True)
            expect(f is not None and f == h, 'group %s is not found by its uuid' % l)
            for i, e in enumerate(g['entries']):
                el = self.name(e['uuid'])
                eh = self.h.get(el)
                expect(eh is not None, 'no handle for %s' % el)
                expect(eh.uuid.hex == e['uuid'] and K.nt(eh.title) == e['title'], 'handle of entry %s shows another entry' % el)
                expect(eh.parentgroup is not None and eh.parentgroup.uuid.hex == g['uuid'], 'parentgroup of entry %s' % el)
                expect(eh.group == eh.parentgroup, 'group of entry %s' % el)
                expect(eh.index == i, lambda: 'index of entry %s is %r, expected %d' % (el, eh.index, i), 'index')
                ep = [K.nt(x) for x in eh.path]
                expect(ep == path + [e['title']], lambda: 'path of entry %s: %r' % (el, eh.path))
                f = kp.find_entries(path=ep)
                expect(f is not None and [K.nt(x) for x in f.path] == ep, lambda: 'entry %s is not found by its path %r' % (el, ep))
                f = kp.find_entries(uuid=eh.uuid, first=True)
                expect(f is not None and f == eh and not f.is_a_history_entry, 'entry %s is not found by its uuid' % el)
            for s in g['groups']:
                go(s, path + [s['name']], g['uuid'])
        go(self.m['root'], [], None)

    def key(self):
        """State identity: the model with identifiers replaced by creation labels and 'now' times abstracted"""
        def z(x):
            if isinstance(x, dict):
                return tuple((k, z(v)) for k, v in sorted(x.items()))
            if isinstance(x, (list, tuple)):
                return tuple(z(v) for v in x)
            if isinstance(x, str):
                return self.label.get(x, x)
            if isinstance(x, datetime):
                return 'NOW' if x > NOW_AFTER else x.isoformat()
            return x
        return hash_key((z(self.m), K.hidden_state(self.kp), self.shape()))

    def shape(self):
        """Layout of the real document (tags only): element order may differ where the model is equal"""
        def sh(el):
            return (el.tag, tuple(sh(c) for c in el if c.tag not in ('UUID', 'Times', 'AutoType')))
        return sh(self.kp.tree.getroot().find('Root')) if hasattr(self.kp.tree, 'getroot') else None


def hash_key(x):
    import hashlib
    return hashlib.blake2b(repr(x).encode('utf-8', 'surrogatepass'), digest_size=12).digest()


def machine(start, labels, ops_of, before=None, structure=True, saved=True, extra=None):
    """Machine for core.explore: replays the history; the last step is fully checked.
    `before(w, op)` may take notes before the last step, `extra(w, op, notes)` adds checks after it"""
    def run(history):
        w = World(start, labels)
        lab = 'start'
        for op in history[:-1]:
            w.do(op)
        last = history[-1] if history else None
        notes = before(w, last) if before else None
        if history:
            lab = '%s: %s' % (last[0], w.do(last))
        w.check(structure, saved)
        if extra:
            extra(w, last, notes)
        return w.key(), ops_of(w), lab
    return run
