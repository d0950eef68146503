"""Large databases: the same reference model, with fixed scripts of operations on documents well past any small-scope bound.

A script is (name of the start, version, operations); every prefix of it is checked against the model (public view), the last state
also structurally and as saved."""
import functools

from . import content as C
from .world import Start, World


def big_start(v, entries=0, groups=0, depth=0, history=0, binaries=0, props=0, bin_entries=0, bin_groups=0, meta=()):
    F = lambda i: dict(Title='t%d' % i, UserName='u', Password='p%d' % i)
    kids = [C.group(v, 'g%d' % i, 'G%d' % i) for i in range(groups)]
    for i in range(entries):
        hist = None
        if i == 0 and history:
            hist = [C.entry(v, 'e0', dict(F(0), Notes='n%d' % k)) for k in range(history)]
        refs = [('f%d' % j, j) for j in range(binaries)] if i == 0 else [('x', (i * 7) % binaries), ('y', binaries - 1)] if binaries else []
        cust = [('key %d' % j, 'value %d' % j, j % 3 == 0) for j in range(props)] if i == 0 else ()
        kids.append(C.entry(v, 'e%d' % i, F(i), history=hist, binaries=refs, custom=cust))
    g = None
    for i in reversed(range(depth)):
        g = C.group(v, 'd%d' % i, 'D%d' % i, C.entry(v, 'x%d' % i, F(i)), *([g] if g is not None else []))
    if g is not None:
        kids.append(g)
    recyclebin = None
    if bin_entries or bin_groups:
        kids.append(C.group(v, 'rb', 'Bin', *([C.entry(v, 'b%d' % i, F(i)) for i in range(bin_entries)] + [C.group(v, 'bg%d' % i, 'BG%d' % i, C.entry(v, 'be%d' % i, F(i))) for i in range(bin_groups)])))
        recyclebin = C.uid('rb')
    data = [b'data %d' % i for i in range(binaries)]
    d = C.document(v, C.group(v, 'root', 'Root', *kids), binaries3=[(x, True) for x in data], recyclebin=recyclebin)
    m = d.find('Meta')
    for k, val in meta:
        e = m.find(k)
        if e is None:
            m.append(C.el(k, val))
        else:
            e.text = val
    return Start(d, version=v, binaries=[(1, x) for x in data] if v == 4 else ())


def labels_of(entries=0, groups=0, depth=0, bin_entries=0, bin_groups=0, **_):
    return (['root', 'rb'] + ['g%d' % i for i in range(groups)] + ['e%d' % i for i in range(entries)] + ['d%d' % i for i in range(depth)] +
            ['x%d' % i for i in range(depth)] + ['b%d' % i for i in range(bin_entries)] + ['bg%d' % i for i in range(bin_groups)] + ['be%d' % i for i in range(bin_groups)])


@functools.lru_cache(maxsize=4)
def start(v, spec):
    return big_start(v, **dict(spec))


def run_script(case):
    v, spec, ops, structure = case
    w = World(start(v, spec), labels_of(**dict(spec)))
    w.check(structure=False, saved=False)
    for op in ops:
        w.do(op)
        w.check(structure=False, saved=False)
    w.check(structure=structure, saved=True)
    return 'as the model'


def t(**kw):
    return tuple(sorted(kw.items()))
