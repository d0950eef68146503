"""Writes MANIFEST.json for the check modules that exist"""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
exec(open(os.path.join(HERE, 'levels.py')).read())
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    mod = os.path.join(HERE, 'mc/checks/%s.py' % p.lower())
    if not os.path.exists(mod):
        na.append(dict(property=p, reason='check not built yet'))
        continue
    level = re.search(r"^LEVEL = '(\w+)'", open(mod).read(), re.M).group(1)
    tech, note = NOTE[p]
    checks.append(dict(property=p, quick_cmd='./check %s --tier quick' % p, thorough_cmd='./check %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='./check --selftest', checks=checks, not_applicable=na,
               notes='No hooks in /repo: checks import the working tree and observe the public API and the saved bytes.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
