"""Entry point: ./check <property id> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import json
import os
import sys
import time


def main():
    if sys.argv[1:] == ['--selftest']:
        from . import selftest
        sys.exit(selftest.main())
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.environ['TZ'] = 'UTC'
    time.tzset()
    from . import core
    sys.path.insert(0, core.REPO)
    import pykeepass
    if not os.path.realpath(pykeepass.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        sys.exit('pykeepass was imported from %s' % pykeepass.__file__)
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('mc.checks.' + a.pid.lower())
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)
        if v['part'] == 'setup':
            mod.main(core.Check(a.pid, mod.LEVEL, a.tier, 1))
            sys.exit(0)
        case = core.unjson(v['case'])
        kind, payload = core.guarded(mod.REPLAY[v['part']], case)
        print(kind, payload)
        sys.exit(1 if kind == 'violation' else 0)
    chk = core.Check(a.pid, mod.LEVEL, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        mod.main(chk)
    except Exception as e:
        # A failure outside of a case: the harness builds its databases through the public interface, which works
        # on a tree that has the properties.  Where the package itself raised, that is a violation (an intact file
        # is rejected, say); any other failure is one of the harness and no verdict.
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        pkg = os.path.join(os.path.realpath(core.REPO), 'pykeepass') + os.sep
        traceback.print_exc()
        if not isinstance(e, core.Violation) and not any(os.path.realpath(f.filename).startswith(pkg) for f in tb):
            sys.exit(2)
        chk.report('setup', {'where': [f.name for f in tb if os.path.realpath(f.filename).startswith(pkg)]},
                   'preparing the databases of the check failed: %s: %s' % (type(e).__name__, e), 'setup')
    sys.exit(chk.finish())


if __name__ == '__main__':
    main()
