"""Controlled wall clock, see mc/shim/clock.c"""
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile
from datetime import datetime, timezone

from . import core

UTC = timezone.utc


def clock():
    """Run under the clock interposer"""
    if os.environ.get('VERIF_CLOCK'):
        return ctypes.CDLL(os.environ['VERIF_CLOCK'])
    d = tempfile.mkdtemp(prefix='pkmc.clock.')
    so = os.path.join(d, 'clock.so')
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, os.path.join(core.HERE, 'mc/shim/clock.c'), '-ldl'], check=True)
    sys.stdout.flush()
    r = subprocess.run([sys.executable, '-B', '-m', 'mc.run'] + sys.argv[1:], env=dict(os.environ, LD_PRELOAD=so, VERIF_CLOCK=so), cwd=core.HERE).returncode
    shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    os._exit(r if r in (0, 1) else 2)


class At:
    """with At(instant): the wall clock shows the instant"""

    def __init__(self, t, per=1):
        self.t, self.per = t, per       # per: readings until the clock advances by a microsecond

    def __enter__(self):
        c = clock()
        c.ck_set.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
        d = self.t - datetime(1970, 1, 1, tzinfo=UTC)
        c.ck_per.argtypes = [ctypes.c_ulong]
        c.ck_per(self.per)
        c.ck_set(d.days * 86400 + d.seconds, d.microseconds * 1000)

    def __exit__(self, *a):
        clock().ck_off()
