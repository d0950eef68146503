#!/usr/bin/env python3
"""Planted bugs: definitions (bugdefs.py) -> /verif/seeded/<id>/, each confirmed in a scratch copy.

    tools/bugs.py make [id..]    write seeded/<id> after confirming that the patch applies, the tests
                                 pass and the demonstration tells the two trees apart
    tools/bugs.py check [id..]   run the quick check of the property of each bug on a patched copy
    tools/bugs.py cross ID..     run other checks too: bugs.py cross C01,C05 id..
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
sys.path.insert(0, HERE)
from bugdefs import BUGS, PREAMBLE

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix='bug.', dir='/tmp')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def apply(bug, repo):
    for f, old, new in bug['edits']:
        p = os.path.join(repo, 'pykeepass', f)
        s = open(p).read()
        assert s.count(old) == 1, (bug['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))


def run(cmd, cwd, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(bug):
    d = copy()
    try:
        repo = d + '/repo'
        demo = d + '/demo'
        os.mkdir(demo)
        open(demo + '/demo.py', 'w').write(PREAMBLE + bug['demo'].strip('\n') + '\n')
        open(demo + '/demo.sh', 'w').write(SH)
        os.chmod(demo + '/demo.sh', 0o755)
        r = run(['bash', demo + '/demo.sh'], repo)
        if r.returncode:
            return 'DEMO FAILS UNPATCHED\n' + r.stdout[-500:]
        apply(bug, repo)
        r = run(['bash', demo + '/demo.sh'], repo)
        if not r.returncode:
            return 'DEMO PASSES PATCHED'
        why = r.stdout.strip().splitlines()[-1:]
        t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'pytest_timeout', '-p', 'no:cacheprovider', '-o', 'python_files=test*.py', 'tests'], repo)
        if t.returncode:
            return 'TESTS FAIL ' + t.stdout[-300:]
        run(['git', 'checkout', '--', 'tests'], repo)
        patch = subprocess.run(['git', 'diff', '--', 'pykeepass'], cwd=repo, stdout=subprocess.PIPE).stdout
        out = os.path.join(SEEDED, bug['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(out + '/patch.diff', 'wb').write(patch)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return 'ok ' + str(why)[:110]
    finally:
        shutil.rmtree(d)


def check(bug, props=None, tier='quick'):
    d = copy()
    try:
        p = os.path.join(SEEDED, bug['id'], 'patch.diff')
        r = run(['git', 'apply', p], d + '/repo')
        if r.returncode:
            return 'patch does not apply'
        out = []
        for prop in props or [bug['property']]:
            e = dict(ENV, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev', VERIF_SEED='1')
            r = subprocess.run([VERIF + '/check', prop, '--tier', tier], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s rc=%d %s' % (prop, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:]))
        return '; '.join(out)
    finally:
        shutil.rmtree(d)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    props = None
    if cmd == 'cross':
        props = args.pop(0).split(',')
    bugs = [b for b in BUGS if not args or any(b['id'].startswith(a) for a in args)]
    n = 7 if cmd == 'make' else 1
    with ThreadPoolExecutor(n) as ex:
        f = {'make': make, 'check': check, 'cross': lambda b: check(b, props)}[cmd]
        for b, r in zip(bugs, ex.map(f, bugs)):
            print(b['id'], r, flush=True)


if __name__ == '__main__':
    main()
