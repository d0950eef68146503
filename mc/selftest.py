"""setup_cmd: the reference must stand on its own before anything is judged by it"""
import os

from . import content as C
from . import core
from . import refkdbx as R
from . import reftwofish


def main():
    reftwofish.self_test()
    # reference writer and reader agree, all configurations
    n = 0
    for v in (3, 4):
        doc = C.document(v, C.group(v, 'root', 'Root', C.entry(v, 'e', dict(Title='t', Password='s'))))
        for c in R.CIPHERS:
            for z in (False, True):
                db = R.RefDB(doc, version=v, cipher=c, compression=z)
                tk = R.transform(db, R.composite('pw'))
                d = R.decode(R.encode(db, tk), R.composite('pw'))
                assert d.xml.findtext('Root/Group/Entry/String[2]/Value') == 's'
                try:
                    R.decode(R.encode(db, tk), R.composite('pw2'))
                    raise SystemExit('reference opened with a wrong password')
                except R.RefCredentials:
                    n += 1
    # reference reader against files written by KeePass/KeePassXC that are part of the repository
    m = 0
    t = os.path.join(core.REPO, 'tests')
    for name, pw, key in (('test3.kdbx', 'password', 'test3.key'), ('test4.kdbx', 'password', 'test4.key')):
        f = os.path.join(t, name)
        if os.path.exists(f):
            with open(f, 'rb') as a, open(os.path.join(t, key), 'rb') as b:
                R.decode(a.read(), R.composite(pw, b.read()))
                m += 1
    print('reference self-test passed: %d configurations, %d foreign files' % (n, m))
    return 0
