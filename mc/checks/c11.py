"""C11: times.  Instants x UTC offsets x attributes x formats x local time zones, and expiry decisions under a controlled clock
(mc/shim/clock.c interposes the wall clock below the interpreter, so it does not matter how the library asks for the time)."""
import ctypes
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import time
from datetime import datetime, timedelta, timezone, tzinfo

from pykeepass.entry import Entry
from pykeepass.group import Group

from .. import content as C
from .. import core
from .. import kp as K
from .. import refkdbx as R
from ..wall import At, clock
from ..core import eq, expect, fail, first_diff

LEVEL = 'model_checking'
UTC = timezone.utc
SEC = timedelta(seconds=1)
DAY = timedelta(days=1)
MIN, MAX = datetime(1, 1, 1, tzinfo=UTC), datetime(9999, 12, 31, 23, 59, 59, tzinfo=UTC)
ZONES = ('UTC', 'AAA-5:45', 'BBB8', 'CET-1CEST,M3.5.0,M10.5.0/3', 'CCC-14', 'DDD12')


class zone:
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        os.environ['TZ'] = self.tz
        time.tzset()

    def __exit__(self, *a):
        os.environ['TZ'] = 'UTC'
        time.tzset()


class Dst(tzinfo):
    """A zone with summer time from April to September and a repeated hour on 1 October"""

    def utcoffset(self, dt):
        n = dt.replace(tzinfo=None)
        a, b = datetime(n.year, 4, 1, 2), datetime(n.year, 10, 1, 2)
        if a <= n < b or (b <= n < b + timedelta(hours=1) and not dt.fold):
            return timedelta(hours=2)
        return timedelta(hours=1)

    def dst(self, dt):
        return self.utcoffset(dt) - timedelta(hours=1)

    def tzname(self, dt):
        return 'X'


# ---------------------------------------------------------------- instants
# around the changes of Dst; the last hour of summer time exists twice
TURNS = [datetime(2021, m, d, h, mi, s, tzinfo=UTC) for m, d, h, mi, s in ((4, 1, 0, 59, 59), (4, 1, 1, 0, 0), (9, 30, 23, 59, 59), (10, 1, 0, 0, 0), (10, 1, 0, 30, 0), (10, 1, 0, 59, 59), (10, 1, 1, 0, 0), (10, 1, 1, 30, 0), (10, 1, 2, 0, 0))]


def instants():
    u = lambda *a: datetime(*a, tzinfo=UTC)
    out = [MIN, MIN + SEC, u(1, 1, 2), u(1, 12, 31, 23, 59, 59), u(4, 2, 29, 12), u(100, 3, 1), u(999, 12, 31, 23, 59, 59), u(1000, 1, 1),
           u(1582, 10, 15), u(1899, 12, 31, 23, 59, 59), u(1900, 2, 28, 23, 59, 59), u(1969, 12, 31, 23, 59, 59), u(1970, 1, 1), u(1970, 1, 1, 0, 0, 1),
           u(1999, 12, 31, 23, 59, 59), u(2000, 2, 29, 0, 0), u(2001, 9, 9, 1, 46, 40), u(2016, 12, 31, 23, 59, 59), u(2019, 2, 28, 23, 59, 59),
           u(2020, 2, 29, 23, 59, 59), u(2021, 3, 28, 0, 59, 59), u(2021, 3, 28, 1), u(2021, 10, 31, 0, 30), u(2021, 10, 31, 1, 30), u(2021, 7, 1, 12, 0, 1),
           u(2021, 1, 1, 0, 0, 0), u(2021, 12, 31, 23, 59, 59), u(2038, 1, 19, 3, 14, 7), u(2038, 1, 19, 3, 14, 8), u(2100, 2, 28, 23, 59, 59), u(2100, 3, 1),
           u(2106, 2, 7, 6, 28, 15), u(2106, 2, 7, 6, 28, 16), u(2999, 12, 31, 23, 59, 59), u(4001, 1, 1), u(9999, 12, 30), MAX - SEC, MAX,
           u(2021, 5, 6, 7, 8, 9, 123456), u(2021, 5, 6, 7, 8, 9, 999999), u(2021, 5, 6, 7, 8, 9, 1), u(2021, 12, 31, 23, 59, 59, 999999), u(2021, 5, 6, 10, 0, 0, 500000)]
    return out + TURNS


OFFS = {'utc': UTC, '+00:01': timezone(timedelta(minutes=1)), '+02': timezone(timedelta(hours=2)), '-05': timezone(-timedelta(hours=5)), '+05:45': timezone(timedelta(minutes=345)),
        '-03:30': timezone(-timedelta(minutes=210)), '+14': timezone(timedelta(hours=14)), '-12': timezone(-timedelta(hours=12)), '+23:59': timezone(timedelta(minutes=1439)),
        '-23:59': timezone(-timedelta(minutes=1439)), 'seconds': timezone(timedelta(hours=1, minutes=23, seconds=45)), 'dst': Dst()}


def represent(t, off):
    """The instant in that zone, or None where datetime cannot express it"""
    if off == 'dst':
        for h in (2, 1):
            for fold in (0, 1):
                try:
                    x = (t + timedelta(hours=h)).replace(tzinfo=OFFS[off], fold=fold)
                except OverflowError:
                    return None
                if x.utcoffset() == timedelta(hours=h):
                    return x
    try:
        return t.astimezone(OFFS[off])
    except OverflowError:
        return None


def doc(v):
    e = C.entry(v, 'e', dict(Title='t', UserName='u', Password='p'), history=[C.entry(v, 'e', dict(Title='h', UserName='u', Password='p'))])
    return C.document(v, C.group(v, 'root', 'Root', e, C.group(v, 'g', 'G', C.entry(v, 'e2', dict(Title='t2', UserName='u', Password='p')))))


T = {v: K.template(doc(v), version=v, cipher='chacha20') for v in (3, 4)}
ATTRS = [(k, a) for k in ('entry', 'group', 'root', 'history') for a in ('ctime', 'mtime', 'atime', 'expiry_time')] + [('db', 'credchange_date')]


def element(kp, kind):
    return {'entry': lambda: kp.root_group.entries[0], 'group': lambda: kp.root_group.subgroups[0], 'root': lambda: kp.root_group,
            'history': lambda: kp.root_group.entries[0].history[0], 'db': lambda: kp}[kind]()


def same(got, want, what):
    expect(isinstance(got, datetime) and got.tzinfo is not None, lambda: '%s is %r' % (what, got))
    expect(abs(got - want) < SEC, lambda: '%s is %s, expected %s' % (what, got.isoformat(), want.isoformat()), 'instant')
    expect(got.utcoffset() == timedelta(0), lambda: '%s is not in UTC: %s' % (what, got.isoformat()), 'not utc')


def with_time(obs, kind, attr, val):
    """The view with that one time replaced"""
    i = ('ctime', 'mtime', 'atime', 'expires', 'expiry_time').index(attr) if attr != 'credchange_date' else None
    if kind == 'db':
        obs['credchange'] = (val,) + obs['credchange'][1:]
        return
    n = {'entry': lambda: obs['root']['entries'][0], 'group': lambda: obs['root']['groups'][0], 'root': lambda: obs['root'],
         'history': lambda: obs['root']['entries'][0]['history'][0]}[kind]()
    t = list(n['times'])
    t[i] = val
    n['times'] = tuple(t)


def roundtrip(case):
    v, kind, attr, i = case
    t = instants()[i]
    data, tk, _ = T[v]
    base = K.ref_observe(R.decode(data, tk=tk))
    n = 0
    for off, tz in itertools.product(OFFS, ZONES):
        val = represent(t, off)
        if val is None or (tz != 'UTC' and off not in ('utc', 'dst')):
            continue
        with zone(tz):
            kp = K.open_bytes(data, tk)
            setattr(element(kp, kind), attr, val)
            what = '%s of the %s set to %s' % (attr, kind, val.isoformat())
            same(getattr(element(kp, kind), attr), t, what)
            view(K.observe(kp), base, kind, attr, t, what)
            out = K.save_bytes(kp, tk)
        view(K.ref_observe(R.decode(out, tk=tk)), base, kind, attr, t, what + ', in the saved file')
        with zone(ZONES[(n + 1) % len(ZONES)]):
            kp = K.open_bytes(out, tk)
            same(getattr(element(kp, kind), attr), t, what + ', after reloading')
            view(K.observe(kp), base, kind, attr, t, what + ', after reloading')
        n += 1
    return 'ok'


def view(got, base, kind, attr, t, what):
    """Everything but the one time is as in the start file, and that one is within a second"""
    import copy
    if kind == 'db':
        g = got['credchange'][0]
    else:
        n = {'entry': lambda: got['root']['entries'][0], 'group': lambda: got['root']['groups'][0], 'root': lambda: got['root'],
             'history': lambda: got['root']['entries'][0]['history'][0]}[kind]()
        g = n['times'][('ctime', 'mtime', 'atime', 'expires', 'expiry_time').index(attr)]
    same(g, t, what)
    want = copy.deepcopy(base)
    with_time(want, kind, attr, g)
    expect(got == want, lambda: '%s: something else changed: %s' % (what, first_diff(got, want)), 'other')


# ---------------------------------------------------------------- time stamps of other programs
def stamps():
    """(text, instant) in ISO form"""
    b = datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC)
    for t in (b, datetime(1999, 12, 31, 23, 59, 59, tzinfo=UTC), datetime(2038, 1, 19, 3, 14, 8, tzinfo=UTC), datetime(1, 1, 2, tzinfo=UTC), datetime(9999, 12, 30, 1, 2, 3, tzinfo=UTC)):
        yield t.strftime('%Y-%m-%dT%H:%M:%SZ').rjust(20, '0'), t
        for h, m in ((0, 0), (2, 0), (-5, 0), (5, 45), (-3, -30), (14, 0), (-12, 0)):
            o = timedelta(hours=h, minutes=m)
            try:
                yield t.astimezone(timezone(o)).isoformat(), t
            except OverflowError:
                pass
        yield t.replace(microsecond=120000).isoformat(timespec='milliseconds').replace('+00:00', 'Z'), t
        yield t.replace(microsecond=1).isoformat(), t
        yield t.replace(tzinfo=None).isoformat(), t


def foreign(case):
    v, tz, i, kind, attr = case
    text, t = list(stamps())[i]
    d = doc(v)
    tag = dict(ctime='CreationTime', mtime='LastModificationTime', atime='LastAccessTime', expiry_time='ExpiryTime')
    if kind == 'db':
        d.find('Meta/MasterKeyChanged').text = text
    else:
        el = {'entry': 'Root/Group/Entry', 'group': 'Root/Group/Group', 'root': 'Root/Group', 'history': 'Root/Group/Entry/History/Entry'}[kind]
        d.find(el + '/Times/' + tag[attr]).text = text
    data, tk, _ = K.template(d, version=v)
    with zone(tz):
        kp = K.open_bytes(data, tk)
        same(getattr(element(kp, kind), attr), t, 'time stamp %r' % text)
    return 'ok'


# ---------------------------------------------------------------- naive expiry times on creation are local time
NAIVE = {'UTC': [((2021, 5, 6, 7, 8, 9), 0), ((2037, 12, 31, 23, 59, 59), 0)],
         'AAA-5:45': [((2021, 5, 6, 7, 8, 9), 345), ((2021, 1, 1, 0, 0, 0), 345), ((2037, 12, 31, 23, 59, 59), 345), ((1975, 1, 1), 345)],
         'BBB8': [((2021, 5, 6, 7, 8, 9), -480), ((2021, 12, 31, 23, 59, 59), -480), ((1975, 1, 1), -480)],
         'CET-1CEST,M3.5.0,M10.5.0/3': [((2021, 1, 6, 7, 8, 9), 60), ((2021, 7, 6, 7, 8, 9), 120), ((2021, 3, 28, 1, 59, 59), 60), ((2021, 3, 28, 3, 0, 0), 120),
                                        ((2021, 10, 31, 1, 59, 59), 120), ((2021, 10, 31, 3, 0, 0), 60), ((2035, 7, 1), 120)],
         'CCC-14': [((2021, 5, 6, 7, 8, 9), 840), ((2021, 1, 1, 0, 0, 0), 840)], 'DDD12': [((2021, 5, 6, 7, 8, 9), -720), ((2021, 12, 31, 23, 0, 0), -720)]}


def create(kp, how, exp):
    g = kp.root_group
    if how == 'add_entry':
        return kp.add_entry(g, 'new', 'u', 'p', expiry_time=exp)
    if how == 'Entry':
        e = Entry(title='new', username='u', password='p', expires=True, expiry_time=exp, kp=kp)
    else:
        e = Group(name='new', expires=True, expiry_time=exp, kp=kp)
    g.append(e)
    return e


def created(kp, how):
    return (kp.root_group.subgroups if how == 'Group' else kp.root_group.entries)[-1]


def creation(case):
    v, how, tz, what, args, off = case
    data, tk, _ = T[v]
    t = datetime(*args, tzinfo=UTC)
    if what == 'naive':
        val, t = t.replace(tzinfo=None), t - timedelta(minutes=off)
    else:
        val = represent(t, off)
    if val is None:
        return 'skipped'
    with zone(tz):
        kp = K.open_bytes(data, tk)
        before = K.observe(kp)
        e = create(kp, how, val)
        same(e.expiry_time, t, 'expiry time given as %r in zone %s' % (val, tz))
        expect(e.expires is True, 'expires of an element created with an expiry time')
        out = K.save_bytes(kp, tk)
    with zone('BBB8'):
        kp = K.open_bytes(out, tk)
        same(created(kp, how).expiry_time, t, 'expiry time after reloading')
        after = K.observe(kp)
        after['root']['groups' if how == 'Group' else 'entries'].pop()
        expect(after == before, lambda: 'creating an element changed another: %s' % first_diff(after, before))
    return 'ok'


# ---------------------------------------------------------------- decisions that depend on the clock
def expired(case):
    v, kind, exp, off, tz = case
    t = datetime(*exp, tzinfo=UTC)
    data, tk, _ = T[v]
    n = 0
    with zone(tz):
        kp = K.open_bytes(data, tk)
        e = element(kp, kind)
        e.expiry_time = represent(t, off)
        for flag in (True, False, True):
            element(kp, kind).expires = flag
            expect(element(kp, kind).expires is flag, 'expires')
            for rel in (-400 * DAY, -DAY, -timedelta(hours=14), -timedelta(hours=2), -timedelta(hours=1), -60 * SEC, -SEC, SEC, 60 * SEC, timedelta(hours=1),
                        timedelta(hours=2), timedelta(hours=14), DAY, 400 * DAY):
                now = t + rel
                with At(now):
                    got = element(kp, kind).expired
                want = flag and rel > timedelta(0)
                expect(bool(got) is want, lambda: 'expired is %r at %s, expiry %s, expires %r' % (got, now, t, flag), 'expired')
                n += 1
        out = K.save_bytes(kp, tk)
        kp = K.open_bytes(out, tk)
        for rel in (-SEC, SEC):
            with At(t + rel):
                expect(bool(element(kp, kind).expired) is (rel > timedelta(0)), 'expired after reloading')
    return 'ok'


def credchange(case):
    v, which, days, off, tz = case
    t = datetime(2021, 3, 4, 5, 6, 7, tzinfo=UTC)
    data, tk, _ = T[v]
    other = 'recommended' if which == 'required' else 'required'
    with zone(tz):
        for otherdays in (-1, 0, 30, 10000):
            kp = K.open_bytes(data, tk)
            kp.credchange_date = represent(t, off)
            setattr(kp, 'credchange_%s_days' % which, days)
            setattr(kp, 'credchange_%s_days' % other, otherdays)
            for again in (False, True):
                for d in sorted({0, 1, 2, days - 1, days, days + 1, days + 2, 29, 30, 31, 5000, -1, -400}):
                    for rel in (-SEC, timedelta(0), SEC, timedelta(hours=12), timedelta(hours=23)):
                        now = t + d * DAY + rel
                        with At(now):
                            got = getattr(kp, 'credchange_' + which)
                        want = days != -1 and now - t >= (days + 1) * DAY
                        expect(bool(got) is want, lambda: 'credchange_%s is %r, %s after the change, days %r' % (which, got, now - t, days), 'credchange')
                eq(getattr(kp, 'credchange_%s_days' % which), days, 'days')
                eq(getattr(kp, 'credchange_%s_days' % other), otherdays, 'other days')
                kp = K.open_bytes(K.save_bytes(kp, tk), tk)
    return 'ok'


def nows(case):
    """Times the library takes from the clock: creation, touch, credential change, recycle bin"""
    v, tz, args, what = case
    now = datetime(*args, tzinfo=UTC)
    data, tk, _ = T[v]
    with zone(tz):
        kp = K.open_bytes(data, tk)
        before = K.observe(kp)
        want = K.observe(kp)
        with At(now):
            if what[0] == 'touch':
                x = element(kp, what[1])
                x.touch(**({} if what[2] is None else {'modify': what[2]}))
                got = K.observe(kp)
                for a in ('atime',) + (('mtime',) if what[2] else ()):
                    val = getattr(element(kp, what[1]), a)
                    same(val, now, a + ' after touch')
                    with_time(want, what[1], a, val)
                expect(got == want, lambda: 'touch changed something else: %s' % first_diff(got, want), 'touch')
            elif what[0] == 'new':
                x = create(kp, what[1], None) if what[1] == 'add_entry' else kp.add_group(kp.root_group, 'new')
                for a in ('ctime', 'mtime', 'atime'):
                    same(getattr(x, a), now, a + ' of a new element')
                expect(not x.expires and not x.expired, 'a new element expires')
            elif what[0] == 'credentials':
                setattr(kp, what[1], 'new')
                same(kp.credchange_date, now, 'credchange_date after changing the ' + what[1])
                want['credchange'] = (kp.credchange_date,) + want['credchange'][1:]
                got = K.observe(kp)
                expect(got == want, lambda: 'changing the credentials changed something else: %s' % first_diff(got, want))
            elif what[0] == 'save_history':
                kp.root_group.subgroups[0].entries[0].save_history()
                e = kp.root_group.subgroups[0].entries[0]
                eq(K.obs_times(e), before['root']['groups'][0]['entries'][0]['times'], 'times after save_history')
                eq(K.obs_times(e.history[0]), before['root']['groups'][0]['entries'][0]['times'], 'times of the snapshot')
            elif what[0] == 'edit':
                e = kp.root_group.entries[0]
                t0 = K.obs_times(e)
                e.title, e.password, e.notes, e.tags, e.icon = 'a', 'b', 'c', ['d'], '5'
                e.set_custom_property('k', 'v')
                eq(K.obs_times(e), t0, 'times after edits (only touch changes them)')
            else:
                K.save_bytes(kp, tk)
                eq(K.observe(kp), before, 'times after saving')
    return 'ok'


REPLAY = dict(roundtrip=roundtrip, foreign=foreign, creation=creation, expired=expired, credchange=credchange, now=nows)


def main(chk):
    clock()
    q = chk.quick
    N = len(instants())
    chk.assumptions += ['naive datetimes assigned to an existing time are not judged', 'at the very instant of expiry either answer is accepted',
                        'local times that do not exist or exist twice are not judged']
    chk.run_cases('roundtrip', [(v, k, a, i) for v in (3, 4) for k, a in ATTRS for i in range(N)], roundtrip,
                  'every time attribute x instants x offsets x local zones x formats, set, saved, decoded, reloaded')
    chk.run_cases('foreign', [(v, tz, i, k, a) for v in (3, 4) for tz in ('UTC', 'BBB8') for i in range(len(list(stamps()))) for k, a in (ATTRS[:4] + [ATTRS[6], ATTRS[-1]])],
                  foreign, 'ISO time stamps as other programs write them')
    cr = [(v, how, tz, 'naive', a, o) for v in (3, 4) for how in ('add_entry', 'Entry', 'Group') for tz, l in NAIVE.items() for a, o in l]
    cr += [(v, how, tz, 'aware', t.timetuple()[:6], off) for v in (3, 4) for how in ('add_entry', 'Entry', 'Group') for tz in (ZONES[1], ZONES[3]) for t in instants()[::2 if q else 1] + TURNS for off in OFFS]
    chk.run_cases('creation', cr, creation, 'naive and aware expiry times given on creation x local zones')
    ex = [(1975, 1, 2, 3, 4, 5), (2021, 3, 28, 1, 0, 0), (2021, 10, 31, 1, 0, 0), (2021, 7, 1), (2038, 1, 19, 3, 14, 8), (2120, 2, 29, 23, 59, 59)]
    chk.run_cases('expired', [(v, k, t, off, tz) for v in (3, 4) for k in ('entry', 'group', 'root', 'history') for t in ex for off in OFFS for tz in (ZONES if not q else ZONES[:1] + ZONES[3:5])],
                  expired, 'expiry instants x offsets x distance of the controlled clock x expires flag')
    chk.run_cases('credchange', [(v, w, d, off, tz) for v in (3, 4) for w in ('required', 'recommended') for d in (-1, 0, 1, 7, 30, 365, 10000) for off in ('utc', '+05:45', '-12', '+14') for tz in ZONES[:3] + ZONES[3:4]],
                  credchange, 'configured days x elapsed time under the controlled clock')
    wh = [('touch', k, m) for k in ('entry', 'group', 'root', 'history') for m in (None, False, True)] + [('new', 'add_entry'), ('new', 'group'), ('credentials', 'password'), ('credentials', 'keyfile'), ('save_history',), ('edit',), ('save',)]
    chk.run_cases('now', [(v, tz, t, w) for v in (3, 4) for tz in ZONES for t in ex + [(2250, 6, 1)] for w in wh], nows,
                  'times taken from the (controlled) clock, for every operation that takes or must not take it')
